/* P28: node types defined by the user */
#include "harness.h"
#include <ecoli_node_or.h>
#include <ecoli_node_seq.h>
#include <ecoli_node_str.h>
#include <ecoli_node_option.h>
#include <ecoli_node_bypass.h>
#include <ecoli_node_many.h>
#include <ecoli_node_subset.h>
#include <ecoli_node_once.h>
#define B(x) sym_concrete(!!(x))
#ifndef T
#define T 3
#endif
#ifndef NS
#define NS 2
#endif
/* ---- the registry */
static struct ec_node_type rt[T];
static char rn[T][8], lk[8];
/* built-in names that are short enough */
static const char *const bi[] = { "or", "re", "any", "seq", "str", "int", "cmd" };
#define NBI 7
static int builtin(const char *x)
{
	unsigned i;
	for (i = 0; i < NBI; i++)
		if (strlen(bi[i]) <= NS && B(!strcmp(x, bi[i])))
			return i + 1;
	return 0;
}
void h_registry(void)
{
	unsigned i, j, reg[T], k;
	struct ec_node *nd[T];
	const struct ec_node_type *t, *bt[NBI];
	int r;

	h_init();
	for (i = 0; i < NBI; i++)
		sym_assert((bt[i] = ec_node_type_lookup(bi[i])) != NULL && !strcmp(ec_node_type_name(bt[i]), bi[i]), "built-in types are registered");
	for (i = 0; i < T; i++) {
		h_str(rn[i], NS, "name");
		rt[i].name = rn[i];
		rt[i].size = i;
		reg[i] = 0;
		nd[i] = NULL;
	}
	sym_part();
	for (i = 0; i < T; i++) {
		unsigned over = sym_choice(2, "override"), dup = 0;
		for (j = 0; j < i; j++)
			if (reg[j])
				dup |= B(!strcmp(rn[i], rn[j]));
		dup |= !!builtin(rn[i]);
		r = ec_node_type_register(&rt[i], over);
		sym_assert((r == 0) == (over || !dup), "a type is registered unless its name is taken and it does not override");
		reg[i] = r == 0;
		if (r == 0) {
			nd[i] = ec_node(rn[i], "n");
			sym_assert(nd[i] != NULL && ec_node_type(nd[i]) == &rt[i], "new nodes have the type registered last");
			sym_cover(dup ? "override" : "new");
		} else
			sym_cover("refused");
	}
	/* any name is found exactly when it is registered, the last registration first */
	h_str(lk, NS, "look");
	t = ec_node_type_lookup(lk);
	for (i = T; i-- > 0; )
		if (reg[i] && B(!strcmp(lk, rn[i])))
			break;
	if (i < T)
		sym_assert(t == &rt[i], "lookup gives the type registered last with the name");
	else if ((r = builtin(lk)))
		sym_assert(t == bt[r - 1], "built-in types stay when not overridden");
	else
		sym_assert(t == NULL && ec_node(lk, "n") == NULL, "a name that is not registered gives nothing");
	sym_assert(ec_node_type_lookup("many") != NULL && ec_node_type_lookup("subset") != NULL, "other types stay");
	for (i = 0; i < T; i++)
		if (nd[i]) {
			sym_assert(ec_node_type(nd[i]) == &rt[i] && !strcmp(ec_node_get_type_name(nd[i]), rn[i]), "existing nodes keep their type");
			for (k = 0; k < T; k++)
				sym_assert((ec_node_check_type(nd[i], &rt[k]) == 0) == (i == k || B(!strcmp(rn[i], rn[k]))), "type check by name");
			ec_node_free(nd[i]);
		}
	h_end();
}
/* ---- the callbacks */
struct priv { char b[16]; struct ec_node *kid; };
static unsigned size_, n_init, n_free, n_set, n_parse, n_comp, n_desc;
static int r_init, r_set, r_parse, r_comp;
static const struct ec_node *self;
static struct ec_node_type ty;
static const struct ec_config *seen_cfg;
static unsigned seen_len, seen_c;
static char seen_w;
static void zero(const struct ec_node *n)
{
	const char *p = ec_node_priv(n);
	unsigned i;
	for (i = 0; i < size_; i++)
		sym_assert(p[i] == 0, "private data starts zeroed");
}
static int c_init(struct ec_node *n)
{
	n_init++;
	zero(n);
	if (size_)
		memset(ec_node_priv(n), 0, size_);
	return r_init;
}
static void c_free(struct ec_node *n)
{
	n_free++;
	sym_assert(n == self, "released for the node");
	if (ty.get_child)
		ec_node_free(((struct priv *)ec_node_priv(n))->kid);
}
static int c_set(struct ec_node *n, const struct ec_config *c)
{
	n_set++;
	sym_assert(n == self, "configured with the node");
	seen_cfg = c;
	return r_set;
}
static int c_parse(const struct ec_node *n, struct ec_pnode *p, const struct ec_strvec *v)
{
	n_parse++;
	sym_assert(n == self && ec_pnode_get_node(p) == n && !ec_pnode_matches(p) && ec_pnode_get_first_child(p) == NULL, "parsing starts with a fresh tree node");
	seen_len = ec_strvec_len(v);
	seen_w = seen_len ? ec_strvec_val(v, 0)[0] : 0;
	return r_parse;
}
static int c_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v)
{
	n_comp++;
	sym_assert(n == self && ec_pnode_get_node(ec_comp_get_cur_pstate(c)) == n, "completion for the node");
	seen_c |= 1u << ec_strvec_len(v);
	if (ec_strvec_len(v) == 1)
		sym_assert(ec_comp_add_item(c, n, EC_COMP_FULL, ec_strvec_val(v, 0), "full") != NULL, "item added");
	return r_comp;
}
static char *c_desc(const struct ec_node *n)
{
	n_desc++;
	sym_assert(n == self, "description of the node");
	return ec_strdup("what");
}
static size_t c_count(const struct ec_node *n)
{
	return ((struct priv *)ec_node_priv(n))->kid ? 1 : 0;
}
static unsigned kid_refs = 1;
static int c_child(const struct ec_node *n, size_t i, struct ec_node **c, unsigned *refs)
{
	if (i)
		return -1;
	*c = ((struct priv *)ec_node_priv(n))->kid;
	*refs = kid_refs;
	return 0;
}
static const struct ec_config_schema schema[] = {
	{ .key = "v", .type = EC_CONFIG_TYPE_UINT64 },
	{ .type = EC_CONFIG_TYPE_NONE },
};
static struct ec_node_type ty = { .name = "mine" };
static struct ec_node *make(const char *id)
{
	static const unsigned sizes[] = { 0, 1, 8, 100 };
	struct ec_node *n;
	size_ = sizes[sym_choice(4, "size")];
	ty.size = size_;
	ty.free_priv = c_free;
	sym_assert(ec_node_type_register(&ty, false) == 0, "registered");
	n = ec_node("mine", id);
	self = n;
	return n;
}
/* creation, configuration, description, release */
void h_life(void)
{
	unsigned has = sym_choice(16, "callbacks"), step;
	struct ec_node *n, *k;
	struct ec_config *c;
	const struct ec_config *cur = NULL;
	uint64_t vals[3];
	char *d;
	unsigned refs;

	h_init();
	r_init = sym_u32("init");
	ty.init_priv = has & 1 ? c_init : NULL;
	ty.schema = has & 2 ? schema : NULL;
	ty.set_config = has & 4 ? c_set : NULL;
	ty.desc = has & 8 ? c_desc : NULL;
	sym_part();
	n = make("id");
	sym_assert(ec_node_type_schema(&ty) == (has & 2 ? schema : NULL), "schema of the type");
	if ((has & 1) && B(r_init < 0)) {
		sym_assert(n == NULL && n_free == 0, "a node whose initialisation fails is not created");
		sym_assert(n_init == 1, "initialised once");
		sym_cover("noinit");
		h_end();
		return;
	}
	sym_assert(n != NULL && n_init == (has & 1) && !strcmp(ec_node_id(n), "id"), "node created and initialised once");
	zero(n);
	if (size_)
		memset(ec_node_priv(n), 0x5a, size_);
	sym_assert(ec_node_get_children_count(n) == 0 && ec_node_get_child(n, 0, &k, &refs) < 0 && k == NULL, "no children without the callbacks");
	sym_assert(ec_node_get_config(n) == NULL, "no configuration at first");
	for (step = 0; step < 2; step++) {
		unsigned kind = sym_choice(4, "config");
		int ok;
		c = ec_config_dict();
		vals[step] = sym_u64("v");
		if (kind == 1)
			ec_config_dict_set(c, "v", ec_config_string("x"));
		else if (kind == 2)
			ec_config_dict_set(c, "w", ec_config_u64(vals[step]));
		else if (kind == 0)
			ec_config_dict_set(c, "v", ec_config_u64(vals[step]));
		r_set = sym_u32("set");
		seen_cfg = NULL;
		refs = n_set;
		ok = (has & 2) && kind != 1 && kind != 2;
		if (ok && (has & 4))
			ok = !B(r_set < 0);
		sym_assert((ec_node_set_config(n, c) == 0) == ok, "a configuration is set when it is valid and the node takes it");
		sym_assert(n_set == refs + ((has & 6) == 6 && kind != 1 && kind != 2), "only valid configurations reach the node");
		if (n_set > refs)
			sym_assert(seen_cfg == c, "the node gets the configuration");
		if (ok)
			cur = c;
		sym_assert(ec_node_get_config(n) == cur, "the last accepted configuration is in force");
		if (cur && ok && kind == 0)
			sym_assert(ec_config_dict_get(cur, "v")->u64 == vals[step], "with its values");
		if (ok)
			sym_cover("set");
	}
	d = ec_node_desc(n);
	sym_assert(d != NULL && !strcmp(d, has & 8 ? "what" : "<mine>") && n_desc == !!(has & 8), "description");
	ec_free(d);
	if (sym_choice(2, "clone")) {
		ec_node_clone(n);
		ec_node_free(n);
		sym_assert(n_free == 0, "not released while referenced");
	}
	if (size_)
		sym_assert(((char *)ec_node_priv(n))[size_ - 1] == 0x5a, "private data is kept");
	ec_node_free(n);
	sym_assert(n_free == 1, "released once");
	h_end();
}
/* parsing below other nodes, with any result */
static struct ec_node *ctx(unsigned k, struct ec_node *n)
{
	struct ec_node *x;
	switch (k) {
	case 0: return n;
	case 1: return EC_NODE_OR("o", n, ec_node("any", "any"));
	case 2: return EC_NODE_SEQ("s", ec_node("any", "any"), n);
	case 3: return EC_NODE_SEQ("s", n, ec_node("any", "any"));
	case 4: return ec_node_option("o", n);
	case 5: return ec_node_bypass("b", n);
	case 6: return ec_node_once("o", n);
	default:
		x = ec_node("subset", "s");
		sym_assert(x && ec_node_subset_add(x, n) == 0, "child added");
		return x;
	}
}
#define ERR -2
#define NO -1
void h_parse(void)
{
	unsigned k = sym_choice(8, "context"), has = sym_choice(4, "parse"), w = sym_choice(4, "words"), i, from = k == 2, rest;
	struct ec_node *g, *n;
	struct ec_pnode *p;
	const struct ec_pnode *q;
	struct ec_strvec *v;
	char b[2] = { 0 }, c0 = 0;
	int mine, exp;

	h_init();
	r_parse = sym_u32("result");
	ty.parse = has ? c_parse : NULL;
	sym_part();
	n = make("mine");
	g = ctx(k, n);
	sym_assert(n != NULL && g != NULL, "grammar built");
	v = ec_strvec();
	for (i = 0; i < w; i++) {
		h_strn(b, 1, "w");
		if (i == from)
			c0 = b[0];
		sym_assert(ec_strvec_add(v, b) == 0, "word added");
	}
	rest = w >= from ? w - from : 0;
	/* what the node itself says */
	if (!has || B(r_parse < 0))
		mine = ERR;
	else if (B(r_parse == EC_PARSE_NOMATCH))
		mine = NO;
	else if (B((unsigned)r_parse > rest))
		mine = ERR; /* more words than there are */
	else
		mine = sym_concrete(r_parse);
	p = ec_parse_strvec(g, v);
	exp = mine;
	switch (k) {
	case 1: if (mine == NO) exp = w ? 1 : NO; break;
	case 2: exp = !w ? NO : mine >= 0 ? mine + 1 : mine; break;
	case 3: if (mine >= 0) exp = (unsigned)mine < w ? mine + 1 : NO; break;
	case 4: if (mine == NO) exp = 0; break;
	case 7:
		if (w == 0)
			exp = NO;
		else if (mine == NO)
			exp = 0;
		break;
	}
	if (k == 7) /* how often and with what a subset asks its children is its own affair */
		sym_assume(w > 0 && has);
	else {
		sym_assert(n_parse == (has && (k != 2 || w)), "the node is asked once");
		if (n_parse)
			sym_assert(seen_len == rest && seen_w == (rest ? c0 : 0), "the node gets the remaining words");
	}
	if (exp == ERR) {
		sym_assert(p == NULL, "an error of the node is reported");
		sym_cover("error");
	} else {
		sym_assert(p != NULL && ec_pnode_matches(p) == (exp >= 0), "the result of the node decides");
		if (exp >= 0)
			sym_assert(ec_pnode_len(p) == (unsigned)exp, "as many words are read as the node says");
		q = ec_pnode_find(p, "mine");
		if (k)
			sym_assert((q != NULL) == (mine >= 0 && exp >= 0), "the node is in the tree when it matched");
		if (q && ec_pnode_matches(q)) {
			sym_assert(ec_pnode_len(q) == (unsigned)mine && ec_pnode_get_node(q) == n, "with the words it read");
			if (mine > 0)
				sym_assert(ec_strvec_val(ec_pnode_get_strvec(q), 0)[0] == c0, "with the words it read");
			sym_cover("match");
		}
		sym_cover(exp >= 0 ? "yes" : "no");
	}
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(g);
	sym_assert(n_free == 1, "released once");
	h_end();
}
void h_complete(void)
{
	unsigned k = sym_choice(7, "context"), has = sym_choice(2, "complete"), w = sym_choice(3, "words"), i, got = 0, asked, any = 0;
	struct ec_node *g, *n;
	struct ec_comp *c;
	struct ec_comp_item *it;
	struct ec_strvec *v;

	h_init();
	r_comp = sym_u32("result");
	r_parse = EC_PARSE_NOMATCH;
	ty.parse = c_parse;
	ty.complete = has ? c_complete : NULL;
	sym_part();
	n = make("mine");
	g = ctx(k, n);
	sym_assert(n != NULL && g != NULL, "grammar built");
	v = ec_strvec();
	for (i = 0; i < w; i++)
		sym_assert(ec_strvec_add(v, i ? "" : "f") == 0, "word added");
	c = ec_complete_strvec(g, v);
	/* the words the node is asked to complete: the last one alone when the node is the one to read it */
	asked = (k == 2 ? w == 2 : w == 1);
	if (has && n_comp && B(r_comp < 0)) {
		sym_assert(c == NULL, "an error of the node is reported");
		sym_cover("error");
	} else {
		sym_assert(c != NULL, "completion succeeds");
		if (has && asked)
			sym_assert(seen_c & 2, "the node is asked for the word");
		EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
			if (ec_comp_item_get_node(it) != n) {
				any++;
				continue;
			}
			got++;
			sym_assert(ec_comp_item_get_type(it) == (has ? EC_COMP_FULL : EC_COMP_UNKNOWN), "the item of the node, or an unknown one when it cannot complete");
			if (has)
				sym_assert(!strcmp(ec_comp_item_get_str(it), "full") && !strcmp(ec_comp_item_get_completion(it), k == 2 ? "full" : "ull"), "the text of the node");
		}
		if (k != 4 && k != 6)
			sym_assert(got == asked, "the items of the node, once");
		else
			sym_assert(!!got == asked, "the items of the node");
		sym_cover(got ? "items" : "none");
		sym_observe("any", any);
	}
	ec_comp_free(c);
	ec_strvec_free(v);
	ec_node_free(g);
	sym_assert(n_free == 1, "released once");
	h_end();
}
/* a node type with a child, in a graph with or without a cycle */
void h_child(void)
{
	unsigned cyc = sym_choice(2, "cycle"), ord = sym_choice(4, "order");
	struct ec_node *n, *hub, *leaf, *c;
	unsigned refs;

	h_init();
	ty.get_children_count = c_count;
	ty.get_child = c_child;
	ty.size = size_ = sizeof(struct priv);
	ty.free_priv = c_free;
	sym_assert(ec_node_type_register(&ty, false) == 0, "registered");
	self = n = ec_node("mine", "mine");
	sym_assert(n != NULL && ec_node_get_children_count(n) == 0, "no child");
	hub = ec_node("or", "hub");
	leaf = ec_node_str("leaf", "l");
	sym_assert(ec_node_or_add(hub, leaf) == 0, "leaf added");
	((struct priv *)ec_node_priv(n))->kid = ec_node_clone(hub);
	if (cyc)
		sym_assert(ec_node_or_add(hub, ec_node_clone(n)) == 0, "cycle closed");
	sym_assert(ec_node_get_children_count(n) == 1 && ec_node_get_child(n, 0, &c, &refs) == 0 && c == hub && refs == 1, "the child of the node");
	sym_assert(ec_node_find(n, "leaf") == leaf && ec_node_find(hub, "mine") == (cyc ? n : NULL), "search goes through the node");
	if (ord == 0) {
		ec_node_free(n);
		sym_assert(n_free == !cyc, "released when nothing refers to it");
		sym_assert(!strcmp(ec_node_id(leaf), "leaf"), "what is held stays");
		ec_node_free(hub);
	} else if (ord == 1) {
		ec_node_free(hub);
		sym_assert(n_free == 0 && !strcmp(ec_node_id(hub), "hub") && ec_node_find(n, "leaf") == leaf, "what is reachable stays");
		ec_node_free(n);
	} else {
		ec_node_clone(leaf);
		ec_node_free(ord == 2 ? n : hub);
		ec_node_free(ord == 2 ? hub : n);
		sym_assert(n_free == 1 && !strcmp(ec_node_id(leaf), "leaf"), "released, except what is held");
		ec_node_free(leaf);
	}
	sym_assert(n_free == 1, "released once");
	h_end();
}
/* long names */
void h_longname(void)
{
	static const unsigned lens[] = { 1, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257 };
	static char a[300], b[300];
	static struct ec_node_type ta = { .name = a }, tb = { .name = b };
	unsigned n = lens[sym_choice(20, "len")], at, d, i;
	struct ec_node *x;
	char *buf = NULL, *p;
	size_t bl;
	FILE *f;
	int same, r;

	h_init();
	for (i = 0; i < n; i++)
		a[i] = b[i] = 'A' + i % 25;
	at = sym_choice(3, "at");
	at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
	sym_assume((a[at] = sym_u8("a")) != 0);
	sym_assume((b[at] = sym_u8("b")) != 0);
	d = sym_choice(3, "blen");
	if (d == 1)
		b[n - 1] = 0;
	else if (d == 2)
		b[n] = 'z';
	sym_part();
	same = B(!strcmp(a, b));
	sym_assert(ec_node_type_register(&ta, 0) == 0, "registered");
	sym_assert(ec_node_type_lookup(b) == (same ? &ta : NULL), "found by its exact name only");
	r = ec_node_type_register(&tb, 0);
	sym_assert((r == 0) == !same, "a taken name is refused");
	sym_assert(ec_node_type_lookup(a) == &ta, "the first type is found");
	if (!same)
		sym_assert(ec_node_type_lookup(b) == &tb, "the second type is found");
	x = ec_node(same ? a : b, "x");
	sym_assert(x && !strcmp(ec_node_get_type_name(x), b), "a node of the type");
	sym_assert((ec_node_check_type(x, &ta) == 0) == same, "type check by name");
	p = ec_node_desc(x);
	sym_assert(p && p[0] == '<' && !strncmp(p + 1, b, strlen(b)) && !strcmp(p + 1 + strlen(b), ">"), "description");
	ec_free(p);
	ec_node_free(x);
	f = open_memstream(&buf, &bl);
	ec_node_type_dump(f);
	fclose(f);
	/* the types registered last come first */
	p = buf;
	if (!same) {
		sym_assert(!strncmp(p, b, strlen(b)) && p[strlen(b)] == '\n', "the list shows the types");
		p += strlen(b) + 1;
	}
	sym_assert(!strncmp(p, a, strlen(a)) && p[strlen(a)] == '\n', "the list shows the types");
	free(buf);
	sym_cover(same ? "same" : "other");
	h_end();
}
