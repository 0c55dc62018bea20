/* P05: subset and once */
#include "gram.h"
#ifndef W
#define W 3
#endif
#ifndef NK
#define NK 4
#endif
#define LEAF (K(G_STR) | K(G_ANY))

static void judge(struct g *g)
{
	struct ec_strvec *v = w_make(sym_choice(W + 1, "nwords"), 1, "w");
	struct ec_pnode *p;
	int ref;

	trail_n = 0;
	ref = ref_match(g, 0, w_n);
	p = ec_parse_strvec(g->node, v);
	sym_assert(p != NULL, "parsing does not fail");
	sym_observe("ref", ref);
	sym_assert(ec_pnode_matches(p) == (ref != NOMATCH), "matches exactly when the reference does");
	if (ref != NOMATCH) {
		sym_cover("match");
		sym_assert(ec_pnode_len(p) == (size_t)ref, "consumes the same number of words");
		tree_check(g, p, 0);
	}
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(g->node);
	h_end();
}
/* subset of 1..3 children of depth <= 1, alone or followed / preceded by something */
void h_subset(void)
{
	unsigned int n = 1 + sym_choice(3, "n"), ctx = sym_choice(4, "ctx");
	struct g *k[3] = { 0 }, *g;
	unsigned int i;

	h_init();
	for (i = 0; i < n; i++)
		k[i] = g_any(i == 0, i == 0 ? LEAF | K(G_SEQ) | K(G_OPTION) | K(G_MANY) : LEAF, "g");
	sym_part();
	g = g_inner(G_SUBSET, k[0], k[1], k[2], 0, 0);
	switch (ctx) {
	case 1: g = g_inner(G_SEQ, g, g_leaf(G_STR, "a"), NULL, 0, 0); break;
	case 2: g = g_inner(G_SEQ, g_leaf(G_STR, "a"), g, NULL, 0, 0); break;
	case 3: g = g_inner(G_MANY, g, NULL, NULL, 0, 0); break;
	}
	judge(g);
}
/* once below repetitions, sequences, alternatives and subsets; two once nodes may share a child */
void h_once(void)
{
	unsigned int shape = sym_choice(6, "shape"), wrap = sym_choice(3, "wrap");
	struct g *a, *b, *x, *y, *g = NULL;

	h_init();
	a = g_any(1, LEAF | K(G_SEQ) | K(G_OPTION), "g");
	b = g_any(0, LEAF, "g");
	sym_part();
	x = g_inner(G_ONCE, a, NULL, NULL, 0, 0);
	switch (shape) {
	case 0: /* many(or(once(a), b)) */
		g = g_inner(G_MANY, g_inner(G_OR, x, b, NULL, 0, 0), NULL, NULL, 0, 0);
		break;
	case 1: /* many(or(b, once(a))) */
		g = g_inner(G_MANY, g_inner(G_OR, b, x, NULL, 0, 0), NULL, NULL, 0, 0);
		break;
	case 2: /* seq(once(a), or(once(a), b)) with a shared */
		ec_node_clone(a->node);
		y = g_inner(G_ONCE, a, NULL, NULL, 0, 0);
		g = g_inner(G_SEQ, x, g_inner(G_OR, y, b, NULL, 0, 0), NULL, 0, 0);
		break;
	case 3: /* seq(option(seq(once(a), b)), once(a), b): an abandoned branch forgets */
		ec_node_clone(a->node);
		y = g_inner(G_ONCE, a, NULL, NULL, 0, 0);
		ec_node_clone(b->node);
		g = g_inner(G_SEQ, g_inner(G_OPTION, g_inner(G_SEQ, x, b, NULL, 0, 0), NULL, NULL, 0, 0), y, b, 0, 0);
		break;
	case 4: /* subset(once(a), b, once(a)) */
		ec_node_clone(a->node);
		y = g_inner(G_ONCE, a, NULL, NULL, 0, 0);
		g = g_inner(G_SUBSET, x, b, y, 0, 0);
		break;
	case 5: /* seq(a, or(once(a), b)): a seen outside of a once node counts too */
		ec_node_clone(a->node);
		g = g_inner(G_SEQ, a, g_inner(G_OR, x, b, NULL, 0, 0), NULL, 0, 0);
		break;
	}
	/* below nodes that have not finished matching */
	switch (wrap) {
	case 1: g = g_inner(G_OPTION, g, NULL, NULL, 0, 0); break;
	case 2: g = g_inner(G_SEQ, g_inner(G_BYPASS, g, NULL, NULL, 0, 0), NULL, NULL, 0, 0); break;
	}
	judge(g);
}
/* larger subsets */
void h_wide(void)
{
	struct g *g;
	unsigned ctx = sym_choice(3, "ctx");

	h_init();
	g = g_wide(G_SUBSET, NK);
	switch (ctx) {
	case 1: g = g_inner(G_SEQ, g, g_leaf(G_STR, "b"), NULL, 0, 0); break;
	case 2: g = g_inner(G_MANY, g, NULL, NULL, 0, 0); break;
	}
	sym_part();
	judge(g);
}
/* subsets with one child reading several words, many words: which choice uses most children */
void h_best(void)
{
	static const char *lits[] = { "a", "b", "c", "d", "e", "f", "g" };
	unsigned int n = 2 + sym_choice(NK + 1, "n"), pos = sym_choice(n + 1, "pos"), wide = 1 + sym_choice(5, "wide"), ctx = sym_choice(2, "ctx"), i, at, rot, m;
	struct g *k[GKIDS], *g, *x, *s[5];
	struct ec_strvec *v;
	struct ec_pnode *p;
	int ref;

	h_init();
	if (wide > n)
		sym_stop();
	rot = sym_choice(2, "order");
	sym_part();
	for (i = 0; i < wide; i++) /* the wide child reads the first words, or the last ones */
		s[i] = g_leaf(G_STR, lits[rot ? n - wide + i : i]);
	x = wide == 1 ? s[0] : g_row(G_SEQ, s, wide);
	for (i = 0; i < n; i++)
		k[i < pos ? i : i + 1] = g_leaf(G_STR, lits[i]);
	k[pos] = x;
	g = g_row(G_SUBSET, k, n + 1);
	if (ctx)
		g = g_inner(G_SEQ, g, g_leaf(G_ANY, NULL), NULL, 0, 0);
	/* the words of the literals in order, one of them arbitrary, and one more */
	v = ec_strvec();
	at = sym_choice(n, "at");
	m = n - sym_choice(2, "less");
	for (i = 0; i < m; i++) {
		w_buf[i][0] = lits[i][0];
		w_buf[i][1] = 0;
		if (i == at)
			h_strn(w_buf[i], 1, "w");
		sym_assert(ec_strvec_add(v, w_buf[i]) == 0, "word added");
	}
	w_n = m;
	trail_n = 0;
	ref = ref_match(g, 0, w_n);
	p = ec_parse_strvec(g->node, v);
	sym_assert(p != NULL, "parsing does not fail");
	sym_assert(ec_pnode_matches(p) == (ref != NOMATCH), "matches exactly when the reference does");
	if (ref != NOMATCH) {
		sym_cover("match");
		sym_assert(ec_pnode_len(p) == (size_t)ref, "consumes the same number of words");
		tree_check(g, p, 0);
	}
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(g->node);
	h_end();
}
