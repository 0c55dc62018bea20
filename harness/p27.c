/* P27: dynamic nodes behave as the grammar their callback builds */
#include "refcomp.h"
#include <ecoli_node_dynamic.h>
#ifndef D
#define D 1
#endif
#ifndef W
#define W 2
#endif
#ifndef LW
#define LW 1
#endif
#ifndef MERGE
#define MERGE 0
#endif
enum { FRESH, CACHED, NONE_AT }; /* what the callback does */
static int how, ncall, none_at = -1, during;
static struct ec_node *cache;
static struct ec_node *dyn_node;
static int opaque_obj;

static struct ec_node *copy_of(const struct g *x)
{
	struct ec_node *n = NULL;
	unsigned i;
	int r = 0;

	switch (x->kind) {
	case G_STR: n = ec_node_str(x->id, x->lit); break;
	case G_ANY: n = ec_node_any(x->id, NULL); break;
	case G_EMPTY: n = ec_node("empty", x->id); break;
	case G_NONE: n = ec_node("none", x->id); break;
	case G_OPTION: n = ec_node_option(x->id, copy_of(x->k[0])); break;
	case G_BYPASS: n = ec_node_bypass(x->id, copy_of(x->k[0])); break;
	case G_MANY: n = ec_node_many(x->id, copy_of(x->k[0]), x->min, x->max); break;
	case G_SEQ:
		n = ec_node("seq", x->id);
		for (i = 0; i < x->nk; i++)
			r |= ec_node_seq_add(n, copy_of(x->k[i]));
		break;
	case G_OR:
		n = ec_node("or", x->id);
		for (i = 0; i < x->nk; i++)
			r |= ec_node_or_add(n, copy_of(x->k[i]));
		break;
	}
	sym_assert(n != NULL && r == 0, "grammar of the callback built");
	return n;
}
static struct ec_node *build(struct ec_pnode *p, void *opaque)
{
	const struct g *x = opaque;
	struct ec_pnode *root, *it;

	sym_assert(during, "the callback is called while parsing or completing");
	sym_assert(p != NULL && ec_pnode_get_node(p) == dyn_node, "the callback gets the state of its node");
	root = ec_pnode_get_root(p);
	for (it = root; it != NULL; it = EC_PNODE_ITER_NEXT(root, it, 1)) /* all that is parsed so far is usable */
		sym_assert(ec_node_id(ec_pnode_get_node(it))[0] != 0, "the parse state can be read");
	if (ncall++ == none_at) {
		errno = ENOENT;
		return NULL;
	}
	if (how == CACHED)
		return ec_node_clone(cache);
	return copy_of(x);
}
/* the dynamic node, alone or inside a grammar; described as a pass-through to what is built */
static struct g *dyn(struct g *x)
{
	struct g *d = g_new(G_BYPASS);

	d->k[0] = x;
	d->nk = 1;
	d->node = dyn_node = ec_node_dynamic(d->id, build, x);
	sym_assert(d->node != NULL, "dynamic node created");
	return d;
}
static struct g *inner_; /* what the callback builds */
static struct g *setup(void)
{
	struct g *d, *g;
	unsigned s;

	how = sym_choice(2, "how");
	inner_ = g_any(D, K(G_STR) | K(G_ANY) | K(G_EMPTY) | K(G_NONE) | K(G_OPTION) | K(G_SEQ) | K(G_OR) | K(G_MANY), "g");
	if (how == CACHED)
		cache = ec_node_clone(inner_->node);
	else
		cache = NULL;
	s = sym_choice(7, "shape");
	sym_part();
	d = dyn(inner_);
	switch (s) {
	case 0: g = d; break;
	case 1: g = g_inner(G_SEQ, g_leaf(G_STR, "a"), d, NULL, 0, 0); break;
	case 2: g = g_inner(G_OR, d, g_leaf(G_STR, "b"), NULL, 0, 0); break;
	case 3: g = g_inner(G_MANY, d, NULL, NULL, 0, 0); break;
	case 4: /* twice the same dynamic node */
		ec_node_clone(d->node);
		g = g_inner(G_SEQ, d, d, NULL, 0, 0);
		break;
	case 5: g = g_inner(G_SEQ, g_inner(G_OPTION, d, NULL, NULL, 0, 0), g_leaf(G_STR, "a"), NULL, 0, 0); break;
	default: g = g_inner(G_OR, g_inner(G_SEQ, d, g_leaf(G_STR, "b"), NULL, 0, 0), g_leaf(G_ANY, NULL), NULL, 0, 0); break;
	}
	return g;
}
static const struct g *g_of_id(const char *id)
{
	unsigned i;
	for (i = 0; i < g_n; i++)
		if (!strcmp(g_pool[i].id, id))
			return &g_pool[i];
	return NULL;
}
/* every node of the tree, built ones included, is alive and is the one of the grammar */
static unsigned walk(struct ec_pnode *p)
{
	struct ec_pnode *it, *c;
	const struct g *x, *k;
	unsigned n = 0, i;

	for (it = p; it != NULL; it = EC_PNODE_ITER_NEXT(p, it, 1)) {
		x = g_of_id(ec_node_id(ec_pnode_get_node(it)));
		sym_assert(x != NULL, "known node");
		for (c = ec_pnode_get_first_child(it); c != NULL; c = ec_pnode_next(c)) {
			k = g_of_id(ec_node_id(ec_pnode_get_node(c)));
			for (i = 0; i < x->nk && x->k[i] != k; i++)
				;
			sym_assert(i < x->nk, "the tree follows the built grammar");
		}
		n++;
	}
	return n;
}
static void fin(struct g *g)
{
	ec_node_free(g->node);
	ec_node_free(inner_->node);
	h_end();
}
void h_parse(void)
{
	struct g *g = setup();
	struct ec_strvec *v;
	struct ec_pnode *p, *q;
	int ref;
	unsigned n, order = 0;

	v = w_make(sym_choice(W + 1, "nwords"), 1, "w");
	none_at = (int)sym_choice(4, "none") - 1;
	trail_n = 0;
	ref = ref_match(g, 0, w_n);
	during = 1;
	p = ec_parse_strvec(g->node, v);
	during = 0;
	ec_strvec_free(v);
	ec_node_free(cache); /* the tree keeps what it needs */
	if (none_at >= 0 && ncall > none_at) {
		sym_assert(p == NULL, "no grammar from the callback is an error");
		sym_cover("error");
		fin(g);
		return;
	}
	sym_assert(p != NULL, "parsed");
	sym_assert(ec_pnode_matches(p) == (ref != NOMATCH), "matches exactly when the built grammar does");
	if (ref != NOMATCH) {
		sym_assert(ec_pnode_len(p) == (size_t)ref, "consumes the same words");
		n = walk(p);
		order = sym_choice(4, "order");
		if (order) { /* a copy keeps the built nodes alive */
			q = ec_pnode_dup(p);
			sym_assert(q != NULL, "copied");
			if (order == 1) {
				ec_pnode_free(p);
				p = NULL;
			} else if (order == 2) {
				ec_pnode_free(q);
				q = NULL;
			}
			sym_assert(walk(q ? q : p) == n, "the tree stays usable");
			ec_pnode_free(q);
			if (p && order == 3)
				sym_assert(walk(p) == n, "the tree stays usable");
		}
		sym_cover("match");
	} else
		sym_cover("nomatch");
	ec_pnode_free(p);
	fin(g);
}
void h_complete(void)
{
	struct g *g = setup();
	struct ec_strvec *v;
	struct ec_comp *c, *c2;
	struct ec_comp_item *it;
	unsigned n = sym_choice(W, "nwords"), got = 0, unk = 0, i, cnt;

	v = w_make(n, 1, "w");
	h_str(w_buf[n], LW, "last");
	sym_assert(ec_strvec_add(v, w_buf[n]) == 0, "word added");
	w_n = n + 1;
	none_at = (int)sym_choice(3, "none") - 1;
	exp_full = exp_unk = exp_maybe = 0;
	trail_n = 0;
	ref_comp(g, 0, w_n);
	during = 1;
	c = ec_complete_strvec(g->node, v);
	if (c != NULL && none_at < 0 && MERGE) { /* the proposals of two completions in one list */
		cnt = ec_comp_count(c, EC_COMP_ALL);
		c2 = ec_complete_strvec(g->node, v);
		sym_assert(c2 != NULL && ec_comp_count(c2, EC_COMP_ALL) == cnt, "completed again");
		if (sym_choice(2, "into")) {
			it = (void *)c;
			c = c2;
			c2 = (void *)it;
		}
		sym_assert(ec_comp_merge(c, c2) == 0 && ec_comp_count(c, EC_COMP_ALL) == 2 * cnt, "merged");
		sym_cover("merged");
	}
	during = 0;
	ec_strvec_free(v);
	ec_node_free(cache);
	if (none_at >= 0 && ncall > none_at) {
		sym_assert(c == NULL, "no grammar from the callback is an error");
		sym_cover("error");
		fin(g);
		return;
	}
	sym_assert(c != NULL, "completed");
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		walk(EC_PNODE_GET_ROOT(ec_comp_group_get_pstate(ec_comp_item_get_grp(it))));
		const struct g *x = g_of_id(ec_node_id(ec_comp_item_get_node(it)));
		const char *s = ec_comp_item_get_str(it);
		sym_assert(x != NULL, "the node that proposes is alive");
		if (ec_comp_item_get_type(it) == EC_COMP_UNKNOWN) {
			unk = 1;
			continue;
		}
		sym_assert(x->kind == G_STR && !strcmp(x->lit, s), "a proposal comes from its literal node");
		for (i = 0; i < 3; i++)
			if (!strcmp(s, g_lits[i]))
				got |= 1u << i;
	}
	sym_assert(got == exp_full, "exactly the words the built grammar accepts next");
	sym_assert((!exp_unk || unk) && (exp_unk || exp_maybe || !unk), "unknown items as the built grammar");
	if (got)
		sym_cover("proposed");
	ec_comp_free(c);
	fin(g);
}
/* the grammar depends on what is already parsed */
static struct ec_node *counter(struct ec_pnode *p, void *opaque)
{
	struct ec_pnode *root = ec_pnode_get_root(p), *it;
	char s[2] = "0";

	sym_assert(opaque == &opaque_obj, "the callback gets its argument");
	for (it = root; it != NULL; it = EC_PNODE_ITER_NEXT(root, it, 1))
		if (!strcmp(ec_node_id(ec_pnode_get_node(it)), "c"))
			s[0]++;
	return ec_node_str("c", s);
}
void h_counter(void)
{
	struct ec_node *n;
	struct ec_strvec *v;
	struct ec_pnode *p;
	struct ec_comp *c;
	struct ec_comp_item *it;
	unsigned i, k, got = 0;
	char want[2] = "0";

	sym_assert(ec_node_dynamic("d", NULL, NULL) == NULL, "a callback is needed");
	n = ec_node_many("m", ec_node_dynamic("d", counter, &opaque_obj), 0, 0);
	sym_assert(n != NULL, "created");
	v = w_make(sym_choice(W + 2, "nwords"), 1, "w");
	for (k = 0; k < w_n && sym_concrete(w_buf[k][0] == (char)('0' + k)); k++)
		;
	p = ec_parse_strvec(n, v);
	sym_assert(p && ec_pnode_matches(p) && ec_pnode_len(p) == k, "each turn parses what the state asks for");
	for (i = 0; i < k; i++) {
		struct ec_pnode *q = i ? ec_pnode_next(ec_pnode_get_first_child(p)) : ec_pnode_get_first_child(p);
		if (i < 2)
			sym_assert(!strcmp(ec_node_id(ec_pnode_get_node(ec_pnode_get_first_child(q))), "c"), "built node in the tree");
	}
	ec_pnode_free(p);
	h_str(w_buf[w_n], 1, "last");
	sym_assert(ec_strvec_add(v, w_buf[w_n]) == 0, "word added");
	c = ec_complete_strvec(n, v);
	sym_assert(c != NULL, "completed");
	want[0] += w_n;
	EC_COMP_FOREACH(it, c, EC_COMP_FULL) {
		sym_assert(!strcmp(ec_comp_item_get_str(it), want), "the proposal depends on the words before");
		got++;
	}
	sym_assert(got == (k == w_n && sym_concrete(!strncmp(want, w_buf[w_n], strlen(w_buf[w_n])))), "one proposal at the right place");
	if (got)
		sym_cover("proposed");
	ec_comp_free(c);
	ec_strvec_free(v);
	ec_node_free(n);
	h_end();
}
