/* P03: the parse tree describes exactly what was matched */
#include "gram.h"
#ifndef W
#define W 2
#endif
#ifndef DB
#define DB 0
#endif
#ifndef NK
#define NK 8
#endif
#define ALL (K(G_STR) | K(G_ANY) | K(G_EMPTY) | K(G_OPTION) | K(G_SEQ) | K(G_OR) | K(G_MANY) | K(G_BYPASS) | K(G_SUBSET) | K(G_ONCE))
#define MID (K(G_STR) | K(G_OPTION) | K(G_SEQ) | K(G_OR) | K(G_MANY))

static void tree(struct g *g)
{
	struct ec_strvec *v;
	struct ec_pnode *p;

	v = w_make(sym_choice(W + 1, "nwords"), 1, "w");
	p = ec_parse_strvec(g->node, v);
	sym_assert(p != NULL, "parsing does not fail");
	sym_assert(ec_pnode_get_parent(p) == NULL && ec_pnode_get_root(p) == p, "the result is a root");
	sym_observe("m", ec_pnode_matches(p));
	sym_observe("len", ec_pnode_len(p));
	if (ec_pnode_matches(p)) {
		sym_cover("match");
		tree_check(g, p, 0);
	} else {
		sym_cover("nomatch");
		sym_assert(ec_pnode_get_strvec(p) == NULL && ec_pnode_len(p) == 0, "no words without a match");
		sym_assert(ec_pnode_get_first_child(p) == NULL, "nothing left in the tree without a match");
		sym_assert(ec_pnode_get_node(p) == g->node, "root points to the grammar");
	}
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(g->node);
	h_end();
}
/* binary nodes over children of depth 1 */
void h_tree(void)
{
	static const int kinds[] = { G_SEQ, G_OR, G_SUBSET, G_MANY, G_OPTION };
	unsigned int k = sym_choice(5, "root"), c;
	struct g *g, *a, *b;

	h_init();
	a = g_any(1, ALL, "g");
	sym_part();
	switch (kinds[k]) {
	case G_MANY:
		c = sym_choice(sizeof(g_mm) / 2, "mm");
		g = g_inner(G_MANY, a, NULL, NULL, g_mm[c][0], g_mm[c][1]);
		break;
	case G_OPTION:
		g = g_inner(G_OPTION, a, NULL, NULL, 0, 0);
		break;
	default:
		b = g_any(DB, DB ? MID : ALL, "g");
		g = g_inner(kinds[k], a, b, NULL, 0, 0);
	}
	tree(g);
}
/* three children: abandoned branches and search debris */
void h_tree3(void)
{
	static const int kinds[] = { G_SEQ, G_OR, G_SUBSET };
	unsigned int k = sym_choice(3, "root");
	struct g *a, *b, *c;

	h_init();
	a = g_any(0, ALL, "g");
	b = g_any(1, K(G_STR) | K(G_ANY) | K(G_SEQ) | K(G_OR), "g");
	sym_part();
	c = g_any(0, ALL, "g");
	tree(g_inner(kinds[k], a, b, c, 0, 0));
}
/* many children */
void h_wide(void)
{
	struct g *g;

	h_init();
	g = g_wide(sym_choice(2, "kind") ? G_SEQ : G_OR, NK);
	switch (sym_choice(3, "around")) {
	case 1: g = g_inner(G_SEQ, g, g_leaf(G_STR, "b"), NULL, 0, 0); break;
	case 2: g = g_inner(G_MANY, g, NULL, NULL, 0, 0); break;
	}
	sym_part();
	tree(g);
}
