/* P15: containers, configurations and trees when any one memory request fails */
#include "gram.h"
#ifndef N
#define N 2
#endif
static void arm(void) { h_arm(sym_u32("failing")); }
#define JUDGE(ok, what) do { \
	int ok_ = !!(ok); \
	h_disarm(); \
	sym_assert(ok_ || h_failed, "fails only when memory runs out: " what); \
	sym_assert(!ok_ || !h_failed, "running out of memory is reported: " what); \
	if (ok_) sym_cover("done"); else sym_cover("failed"); \
} while (0)
static int is(const char *a, const char *b) { return a != NULL && b != NULL && !strcmp(a, b); }
static int nfree;
static void fr(void *p) { nfree++; (void)p; }

/* string vectors */
void h_strvec(void)
{
	static char s[N + 1];
	static const char *arr[] = { "x", "y", "z" };
	struct ec_strvec *v, *w, *r = NULL;
	struct ec_dict *d = NULL;
	unsigned op = sym_choice(8, "op"), n = sym_choice(4, "len"), i, shared = sym_choice(2, "shared"), at, cut = 0;
	size_t off = 0, len = 0;
	int ok;

	v = ec_strvec();
	for (i = 0; i < n; i++)
		sym_assert(ec_strvec_add(v, arr[i]) == 0, "built");
	w = shared ? ec_strvec_dup(v) : NULL;
	at = n ? sym_choice(n, "at") : 0;
	h_str(s, N, "s");
	if (op == 1 || op == 3) {
		if (n == 0)
			sym_stop();
	}
	if (op == 2) {
		off = sym_choice(n + 1, "off");
		len = sym_choice(n - off + 1, "sublen");
	}
	if (op == 3) {
		d = ec_dict();
		sym_assert(ec_dict_set(d, "k", "v", NULL) == 0, "built");
	}
	arm();
	switch (op) {
	case 0: ok = ec_strvec_add(v, s) == 0; break;
	case 1: ok = ec_strvec_set(v, at, s) == 0; break;
	case 2: ok = (r = ec_strvec_ndup(v, off, len)) != NULL; break;
	case 3: ok = ec_strvec_set_attrs(v, at, d) == 0; break;
	case 4: ok = (r = ec_strvec()) != NULL; break;
	case 5: ok = (r = ec_strvec_from_array(arr, n)) != NULL; break;
	case 6: ok = (r = ec_strvec_sh_lex_str(s, EC_STRVEC_TRAILSP, NULL)) != NULL; break;
	default: ok = (r = ec_strvec_dup(v)) != NULL; break;
	}
	JUDGE(ok, "string vectors");
	sym_assert(ec_strvec_len(v) == n + (op == 0 && ok), "length of the vector");
	for (i = 0; i < n; i++)
		sym_assert(is(ec_strvec_val(v, i), op == 1 && ok && i == at ? s : arr[i]), "words of the vector");
	if (op == 0 && ok)
		sym_assert(is(ec_strvec_val(v, n), s), "word added");
	for (i = 0; w != NULL && i < n; i++)
		sym_assert(is(ec_strvec_val(w, i), arr[i]) && ec_strvec_get_attrs(w, i) == NULL, "the copy is as before");
	if (op == 3)
		sym_assert((ec_strvec_get_attrs(v, at) != NULL) == ok, "attributes set");
	if (op == 2 && ok)
		for (i = 0; i < len; i++)
			sym_assert(is(ec_strvec_val(r, i), arr[off + i]), "words of the sub-vector");
	/* still usable */
	sym_assert(ec_strvec_add(v, "end") == 0 && is(ec_strvec_val(v, ec_strvec_len(v) - 1), "end"), "the vector still works");
	(void)cut;
	ec_strvec_free(r);
	ec_strvec_free(v);
	ec_strvec_free(w);
	h_end();
}
/* tables and dictionaries, around their growth */
void h_table(void)
{
	static const unsigned sizes[] = { 0, 1, 7, 8, 9 };
	unsigned use_dict = sym_choice(2, "dict"), n = sizes[sym_choice(5, "size")], op = sym_choice(3, "op"), i, shared = sym_choice(2, "shared");
	struct ec_dict *d = NULL, *e = NULL, *r = NULL;
	struct ec_htable *h = NULL, *g = NULL, *q = NULL;
	char k[3] = "k0";
	int vals[12], ok, left;
	void *got;

	sym_part();
	if (use_dict) d = ec_dict(); else h = ec_htable();
	for (i = 0; i < n; i++) {
		k[1] = '0' + i;
		if (use_dict)
			sym_assert(ec_dict_set(d, k, &vals[i], fr) == 0, "built");
		else
			sym_assert(ec_htable_set(h, k, 2, &vals[i], fr) == 0, "built");
	}
	if (shared) {
		if (use_dict) e = ec_dict_dup(d); else g = ec_htable_dup(h);
	}
	k[1] = op == 1 && n ? '0' : '9' + 1; /* overwrite or add */
	nfree = 0;
	arm();
	if (op == 2) {
		if (use_dict) r = ec_dict_dup(d); else q = ec_htable_dup(h);
		ok = r != NULL || q != NULL;
	} else
		ok = (use_dict ? ec_dict_set(d, k, &vals[11], fr) : ec_htable_set(h, k, 2, &vals[11], fr)) == 0;
	JUDGE(ok, "tables");
	if (op != 2)
		sym_assert(nfree == (!ok || (op == 1 && n && !shared)), "the refused or the overwritten value is released");
	else
		sym_assert(nfree == 0, "copying releases no value");
	sym_assert((use_dict ? ec_dict_len(d) : ec_htable_len(h)) == n + (op != 2 && ok && (op == 0 || n == 0)), "size of the table");
	for (i = 0; i < n; i++) {
		k[1] = '0' + i;
		got = use_dict ? ec_dict_get(d, k) : ec_htable_get(h, k, 2);
		sym_assert(got == (i == 0 && op == 1 && ok ? &vals[11] : &vals[i]), "values of the table");
		if (shared) {
			got = use_dict ? ec_dict_get(e, k) : ec_htable_get(g, k, 2);
			sym_assert(got == &vals[i], "values of the copy");
		}
	}
	k[1] = 'z';
	sym_assert((use_dict ? ec_dict_set(d, k, NULL, NULL) : ec_htable_set(h, k, 2, NULL, NULL)) == 0, "the table still works");
	left = n + 1;
	ec_dict_free(d);
	ec_dict_free(r);
	ec_dict_free(e);
	ec_htable_free(h);
	ec_htable_free(q);
	ec_htable_free(g);
	sym_assert(nfree == (int)n + (op != 2), "every value is released once");
	(void)left;
	h_end();
}
/* generic vectors */
static void vcopy(void *dst, void *src) { *(uint32_t *)dst = *(uint32_t *)src; nfree--; }
static void vfree(void *e) { (void)e; nfree++; }
void h_vec(void)
{
	unsigned n = sym_choice(4, "len"), op = sym_choice(3, "op"), cb = sym_choice(2, "cb"), i;
	struct ec_vec *v = ec_vec(4, sym_choice(2, "pre") * 2, cb ? vcopy : NULL, cb ? vfree : NULL), *w = NULL;
	uint32_t x;
	int ok;

	for (i = 0; i < n; i++)
		sym_assert(ec_vec_add_u32(v, 100 + i) == 0, "built");
	arm();
	if (op == 0)
		ok = ec_vec_add_u32(v, 200) == 0;
	else if (op == 1)
		ok = (w = ec_vec_dup(v)) != NULL;
	else
		ok = (w = ec_vec(4, n, NULL, NULL)) != NULL;
	JUDGE(ok, "vectors");
	sym_assert(ec_vec_len(v) == n + (op == 0 && ok), "length of the vector");
	for (i = 0; i < n; i++) {
		sym_assert(ec_vec_get(&x, v, i) == 0 && x == 100 + i, "elements of the vector");
		if (op == 1 && ok)
			sym_assert(ec_vec_get(&x, w, i) == 0 && x == 100 + i, "elements of the copy");
	}
	sym_assert(ec_vec_add_u32(v, 5) == 0, "the vector still works");
	ec_vec_free(w);
	ec_vec_free(v);
	if (cb)
		sym_assert(nfree == (int)n + 1 + (op == 0 && ok), "every element is released once");
	h_end();
}
/* configurations */
static struct ec_config *conf(unsigned k)
{
	struct ec_config *c, *l;

	switch (k) {
	case 0: return ec_config_bool(1);
	case 1: return ec_config_i64(-1);
	case 2: return ec_config_u64(1);
	case 3: return ec_config_string("s");
	case 4: return ec_config_node(ec_node("any", "n"));
	case 5:
		c = ec_config_dict();
		if (c == NULL)
			return NULL;
		if (ec_config_dict_set(c, "a", ec_config_string("x")) < 0 || ec_config_dict_set(c, "b", ec_config_node(ec_node("any", "n"))) < 0) {
			ec_config_free(c);
			return NULL;
		}
		return c;
	default:
		c = ec_config_dict();
		if (c == NULL)
			return NULL;
		l = ec_config_list();
		if (l == NULL || ec_config_list_add(l, ec_config_u64(3)) < 0 || ec_config_list_add(l, conf(5)) < 0) {
			ec_config_free(l);
			ec_config_free(c);
			return NULL;
		}
		if (ec_config_dict_set(c, "l", l) < 0 || ec_config_dict_set(c, "a", ec_config_u64(4)) < 0) {
			ec_config_free(c);
			return NULL;
		}
		return c;
	}
}
void h_config(void)
{
	unsigned k = sym_choice(7, "value"), op = sym_choice(5, "op");
	struct ec_config *c = NULL, *d = NULL, *e = NULL, *v;
	int ok;

	sym_part();
	if (op == 0) { /* building */
		arm();
		c = conf(k);
		JUDGE(c != NULL, "building a configuration");
		ec_config_free(c);
		h_end();
		return;
	}
	c = conf(k);
	sym_assert(c != NULL, "built");
	if (op == 1) { /* copying */
		arm();
		d = ec_config_dup(c);
		JUDGE(d != NULL, "copying a configuration");
		e = conf(k);
		if (k != 4 && k != 5 && k != 6)
			sym_assert(ec_config_cmp(c, e) == 0, "the source is as before");
		if (d != NULL)
			sym_assert(ec_config_cmp(c, d) == 0, "the copy is equal");
	} else if (op == 2) { /* entry of a dictionary, possibly replacing one */
		d = conf(5);
		e = ec_config_dup(d);
		k = sym_choice(2, "new");
		arm();
		ok = ec_config_dict_set(d, k ? "new" : "a", c) == 0;
		c = NULL;
		JUDGE(ok, "setting an entry");
		v = ec_config_dict_get(d, "a");
		sym_assert(v != NULL && (!ok || k ? v->type == EC_CONFIG_TYPE_STRING && is(v->string, "x") : 1), "the other entries are kept");
		sym_assert(ec_config_count(d) == 2 + (ok && k), "number of entries");
		if (!ok)
			sym_assert(ec_config_cmp(d, e) == 0, "the dictionary is as before");
	} else if (op == 3) { /* element of a list */
		d = ec_config_list();
		sym_assert(ec_config_list_add(d, ec_config_u64(1)) == 0, "built");
		arm();
		ok = ec_config_list_add(d, c) == 0;
		c = NULL;
		JUDGE(ok, "adding an element");
		sym_assert(ec_config_count(d) == 1 + ok, "number of elements");
	} else { /* configuring a node: the previous configuration stays in force */
		struct ec_node *n = ec_node_int("i", 5, 9, 10);
		struct ec_pnode *p;

		ec_config_free(c);
		c = NULL;
		d = ec_config_dict();
		sym_assert(ec_config_dict_set(d, "min", ec_config_i64(1)) == 0 && ec_config_dict_set(d, "base", ec_config_u64(16)) == 0, "built");
		arm();
		ok = ec_node_set_config(n, d) == 0;
		d = NULL;
		JUDGE(ok, "configuring a node");
		p = ec_parse(n, "3");
		sym_assert(p != NULL && ec_pnode_matches(p) == (size_t)ok, "the configuration in force");
		ec_pnode_free(p);
		p = ec_parse(n, "7");
		sym_assert(p != NULL && ec_pnode_matches(p) == 1, "the configuration in force");
		ec_pnode_free(p);
		v = ec_config_dict_get(ec_node_get_config(n), "min");
		sym_assert(v != NULL && v->i64 == (ok ? 1 : 5), "the configuration in force");
		ec_node_free(n);
	}
	ec_config_free(c);
	ec_config_free(d);
	ec_config_free(e);
	h_end();
}
/* reconfiguring nodes: children and parameters stay as they were when it fails */
void h_reconf(void)
{
	unsigned k = sym_choice(12, "kind"), ok, before = 0, i;
	struct ec_node *n = NULL, *o = NULL;
	struct ec_strvec *v;
	struct ec_pnode *p;

	switch (k) {
	case 0: n = EC_NODE_SEQ("n", ec_node_str("1", "a")); break;
	case 1: n = EC_NODE_OR("n", ec_node_str("1", "a")); break;
	case 2: n = EC_NODE_SUBSET("n", ec_node_str("1", "a")); break;
	case 3: n = ec_node_option("n", ec_node_str("1", "a")); break;
	case 4: n = ec_node_once("n", ec_node_str("1", "a")); break;
	case 5: n = ec_node_bypass("n", ec_node_str("1", "a")); break;
	case 6: n = ec_node_many("n", ec_node_str("1", "a"), 1, 1); break;
	case 7: n = ec_node_str("n", "a"); break;
	default:
		n = ec_node("expr", "n");
		sym_assert(ec_node_expr_set_val_node(n, ec_node_str("v", "a")) == 0, "built");
		sym_assert(ec_node_expr_add_bin_op(n, ec_node_str("o", "+")) == 0, "built");
		sym_assert(ec_node_expr_add_parenthesis(n, ec_node_str("o", "("), ec_node_str("c", ")")) == 0, "built");
	}
	sym_assert(n != NULL, "built");
	v = EC_STRVEC("a", "b");
	p = ec_parse_strvec(n, v);
	before = ec_pnode_matches(p) + ec_pnode_len(p);
	ec_pnode_free(p);
	if (k != 7)
		o = ec_node_str("2", "b");
	arm();
	switch (k) {
	case 0: ok = ec_node_seq_add(n, o) == 0; break;
	case 1: ok = ec_node_or_add(n, o) == 0; break;
	case 2: ok = ec_node_subset_add(n, o) == 0; break;
	case 3: ok = ec_node_option_set_child(n, o) == 0; break;
	case 4: ok = ec_node_once_set_child(n, o) == 0; break;
	case 5: ok = ec_node_bypass_set_child(n, o) == 0; break;
	case 6: ok = ec_node_many_set_params(n, o, 2, 3) == 0; break;
	case 7: ok = ec_node_str_set_str(n, "b") == 0; break;
	case 8: ok = ec_node_expr_set_val_node(n, o) == 0; break;
	case 9: ok = ec_node_expr_add_bin_op(n, o) == 0; break;
	case 10: ok = ec_node_expr_add_pre_op(n, o) == 0; break;
	default: ok = ec_node_expr_add_post_op(n, o) == 0; break;
	}
	JUDGE(ok, "changing a node");
	for (i = 0; i < 2; i++) {
		p = ec_parse_strvec(n, v);
		sym_assert(p != NULL, "the node still works");
		if (!ok)
			sym_assert(ec_pnode_matches(p) + ec_pnode_len(p) == before, "the node is as before");
		ec_pnode_free(p);
	}
	ec_strvec_free(v);
	ec_node_free(n);
	h_end();
}
/* proposals */
void h_comp(void)
{
	struct ec_node *n = EC_NODE_OR("n", ec_node_str("1", "ab"), ec_node_str("2", "ac"));
	struct ec_comp *c = ec_complete(n, "a"), *d;
	struct ec_comp_item *it = ec_comp_iter_first(c, EC_COMP_ALL);
	unsigned op = sym_choice(4, "op");
	char *s;
	int ok;

	sym_assert(it != NULL && ec_comp_count(c, EC_COMP_ALL) == 2, "proposals");
	arm();
	switch (op) {
	case 0: ok = ec_comp_item_set_display(it, "zz") == 0; break;
	case 1: ok = ec_comp_item_set_completion(it, "zz") == 0; break;
	case 2: ok = ec_comp_item_set_str(it, "zz") == 0; break;
	default:
		s = ec_node_desc(n);
		ok = s != NULL;
		ec_free(s);
		break;
	}
	JUDGE(ok, "changing a proposal");
	sym_assert(is(ec_comp_item_get_display(it), op == 0 && ok ? "zz" : "ab"), "display");
	sym_assert(is(ec_comp_item_get_completion(it), op == 1 && ok ? "zz" : "b"), "completion");
	sym_assert(is(ec_comp_item_get_str(it), op == 2 && ok ? "zz" : "ab"), "text");
	d = ec_complete(n, "");
	sym_assert(ec_comp_merge(c, d) == 0 && ec_comp_count(c, EC_COMP_ALL) == 4, "merged");
	ec_comp_free(c);
	ec_node_free(n);
	h_end();
}
/* a node type that offers proposals itself: a refused one is not counted */
static unsigned cn;
static int cpl(const struct ec_node *node, struct ec_comp *comp, const struct ec_strvec *sv)
{
	unsigned i, have, r = 0;

	(void)sv;
	for (i = 0; i < 3; i++) {
		have = ec_comp_count(comp, EC_COMP_ALL);
		if (ec_comp_add_item(comp, node, cn == 0 ? EC_COMP_FULL : EC_COMP_PARTIAL, "", "x") != NULL)
			r++;
		sym_assert(ec_comp_count(comp, EC_COMP_ALL) == r && have <= r, "counts exactly what was added");
	}
	return 0;
}
static struct ec_node_type ty = { .name = "probe", .complete = cpl };
void h_items(void)
{
	struct ec_node *n;
	struct ec_comp *c;
	struct ec_comp_item *it;
	unsigned k = 0;

	cn = sym_choice(2, "kind");
	sym_assert(ec_node_type_register(&ty, 1) == 0, "registered");
	n = ec_node("probe", "n");
	arm();
	c = ec_complete(n, "");
	h_disarm();
	if (c != NULL) {
		for (it = ec_comp_iter_first(c, EC_COMP_ALL); it != NULL; it = ec_comp_iter_next(it, EC_COMP_ALL))
			k++;
		sym_assert(k == ec_comp_count(c, EC_COMP_ALL) && k + h_failed == 3, "every proposal added is there");
		sym_cover("done");
	} else {
		sym_assert(h_failed, "fails only when memory runs out");
		sym_cover("failed");
	}
	ec_comp_free(c);
	ec_node_free(n);
	h_end();
}
/* copies of trees, names of log types, formatted strings, search by identifier */
void h_misc(void)
{
	struct ec_node *n = EC_NODE_SEQ("n", ec_node_option("o", ec_node_str("1", "a")), ec_node_any("2", NULL)), *f;
	struct ec_strvec *v = EC_STRVEC("a", "b");
	struct ec_pnode *p = ec_parse_strvec(n, v), *q = NULL;
	unsigned op = sym_choice(5, "op");
	char *s = NULL;
	int ok, t = -1;

	sym_assert(ec_dict_set(ec_pnode_get_attrs(p), "k", "v", NULL) == 0, "built");
	arm();
	switch (op) {
	case 0: ok = (q = ec_pnode_dup(p)) != NULL; break;
	case 1: ok = ec_asprintf(&s, "<%s>", "x") == 3; break;
	case 2: /* a search that runs short of memory may still find the node */
		f = ec_node_find(n, "2");
		sym_assert(f == NULL || is(ec_node_id(f), "2"), "the node found");
		ok = f != NULL && !h_failed;
		break;
	case 3: ok = ec_dict_set(ec_node_attrs(n), "k", ec_strdup("v"), ec_free_func) == 0 && ec_dict_get(ec_node_attrs(n), "k") != NULL; break;
	default: ok = (t = ec_log_type_register("fresh")) >= 0; break;
	}
	JUDGE(ok, "various");
	if (op == 4) {
		h_base += ok ? 1 : 0; /* the name stays */
		sym_assert(is(ec_log_name(ec_log_type_register("node")), "node"), "log types are kept");
		if (ok)
			sym_assert(is(ec_log_name(t), "fresh"), "log type registered");
	}
	if (q != NULL)
		sym_assert(ec_pnode_len(q) == 2 && is(ec_dict_get(ec_pnode_get_attrs(q), "k"), "v"), "the copy is equal");
	sym_assert(ec_pnode_len(p) == 2 && ec_pnode_find(p, "1") != NULL, "the tree is as before");
	ec_pnode_free(q);
	ec_free(s);
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(n);
	h_end();
}
