/* P06: completion proposes exactly the words the grammar accepts next */
#include "refcomp.h"
#ifndef D
#define D 1
#endif
#ifndef W
#define W 2
#endif
#ifndef DB
#define DB 0
#endif
#ifndef LW
#define LW 2
#endif
#ifndef NR
#define NR 4
#endif
/* n complete words of one byte, then a partial word of 0..LW bytes */
static struct ec_strvec *words(void)
{
	unsigned n = sym_choice(W, "nwords");
	struct ec_strvec *v = w_make(n, 1, "w");

	h_str(w_buf[n], LW, "last");
	sym_assert(ec_strvec_add(v, w_buf[n]) == 0, "word added");
	w_n = n + 1;
	return v;
}
static void judge(struct g *g, struct ec_strvec *v)
{
	struct ec_comp *c;
	struct ec_comp_item *it;
	unsigned got = 0, unk = 0, i;
	const char *last = w_buf[w_n - 1];

	exp_full = exp_unk = exp_maybe = 0;
	trail_n = 0;
	ref_comp(g, 0, w_n);
	c = ec_complete_strvec(g->node, v);
	sym_assert(c != NULL, "completion does not fail");
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		const char *s = ec_comp_item_get_str(it), *m = ec_comp_item_get_completion(it);
		if (ec_comp_item_get_type(it) == EC_COMP_UNKNOWN) {
			unk = 1;
			continue;
		}
		sym_assert(ec_comp_item_get_type(it) == EC_COMP_FULL, "literals are full proposals");
		sym_assert(s != NULL && m != NULL, "a proposal has a text and a completion");
		for (i = 0; i < g_nlits; i++)
			if (strcmp(s, g_lits[i]) == 0)
				got |= 1u << i;
		sym_assert(strncmp(s, last, strlen(last)) == 0, "a proposal extends the typed word");
		sym_assert(strcmp(s + strlen(last), m) == 0, "the completion is the missing part");
		sym_assert(g_of_node(ec_comp_item_get_node(it)) != NULL && g_of_node(ec_comp_item_get_node(it))->kind == G_STR &&
			strcmp(g_of_node(ec_comp_item_get_node(it))->lit, s) == 0, "a proposal comes from its literal node");
	}
	sym_observe("got", got);
	sym_assert((exp_full & ~got) == 0, "no acceptable word is missing from the proposals");
	sym_assert((got & ~exp_full) == 0, "every proposal is acceptable at this position");
	sym_assert(!exp_unk || unk, "an open position gives an unknown item");
	sym_assert(exp_unk || exp_maybe || !unk, "no unknown item without an open position");
	if (got)
		sym_cover("proposed");
	else
		sym_cover("nothing");
	ec_comp_free(c);
}
#define LEAF (K(G_STR) | K(G_ANY) | K(G_EMPTY))
#define ALL (LEAF | K(G_NONE) | K(G_OPTION) | K(G_SEQ) | K(G_OR) | K(G_MANY) | K(G_BYPASS) | K(G_SUBSET) | K(G_ONCE))
#ifndef MASK
#define MASK (LEAF | K(G_OPTION) | K(G_SEQ) | K(G_OR) | K(G_MANY) | K(G_SUBSET))
#endif
static void fin(struct g *g)
{
	struct ec_strvec *v;

	sym_part();
	v = words();
	judge(g, v);
	ec_strvec_free(v);
	ec_node_free(g->node);
	h_end();
}
void h_comp(void)
{
	h_init();
	fin(g_any(D, ALL, "g"));
}
/* binary node over children of depth 1, literals where one is a prefix of another */
void h_deep(void)
{
	static const int kinds[] = { G_SEQ, G_MANY, G_SUBSET, G_OR };
	int k = kinds[sym_choice(4, "kind")];
	struct g *a, *b;

	h_init();
	g_lits[1] = sym_choice(2, "lits") ? "ab" : "b";
	g_lits[2] = strcmp(g_lits[1], "b") ? "b" : "ab";
	if (k == G_MANY) {
		unsigned c = sym_choice(4, "mm");
		static const unsigned char mm[] = { 0, 1, 2, 3 };
		a = g_any(D, MASK, "g");
		fin(g_inner(k, a, NULL, NULL, 0, mm[c]));
		return;
	}
	a = g_any(D, MASK, "g");
	b = g_any(DB, MASK, "g");
	if (sym_choice(2, "order"))
		fin(g_inner(k, a, b, NULL, 0, 0));
	else
		fin(g_inner(k, b, a, NULL, 0, 0));
}
/* once nodes: a repetition of an alternative, a sequence, or a subset, with shared children */
void h_once(void)
{
	struct g *a, *b, *o1, *o2, *g;
	unsigned shape = sym_choice(5, "shape");

	h_init();
	a = g_any(0, K(G_STR) | K(G_ANY), "g");
	b = g_any(1, K(G_STR) | K(G_OPTION) | K(G_MANY) | K(G_SEQ), "g");
	o1 = g_inner(G_ONCE, a, NULL, NULL, 0, 0);
	switch (shape) {
	case 0: g = g_inner(G_MANY, g_inner(G_OR, o1, b, NULL, 0, 0), NULL, NULL, 0, 0); break;
	case 1:
		o2 = g_inner(G_ONCE, b, NULL, NULL, 0, 0);
		g = g_inner(G_MANY, g_inner(G_OR, o1, o2, NULL, 0, 0), NULL, NULL, 0, 0);
		break;
	case 2: g = g_inner(G_SEQ, b, g_inner(G_OPTION, o1, NULL, NULL, 0, 0), g_inner(G_ONCE, g_leaf(G_STR, "b"), NULL, NULL, 0, 0), 0, 0); break;
	case 3: /* the same child inside and outside a once node */
		ec_node_clone(a->node);
		g = g_inner(G_SEQ, a, g_inner(G_OR, o1, b, NULL, 0, 0), NULL, 0, 0);
		break;
	default: g = g_inner(G_SEQ, g_inner(G_SUBSET, o1, b, NULL, 0, 0), g_leaf(G_STR, "a"), NULL, 0, 0); break;
	}
	fin(g);
}
/* three children, and elements that need several words before another element */
void h_wide(void)
{
	static const int kinds[] = { G_SEQ, G_SUBSET, G_OR };
	unsigned shape = sym_choice(4, "shape");
	struct g *a, *b, *c, *g;
	unsigned m = K(G_STR) | K(G_ANY) | K(G_OPTION);

	h_init();
	a = g_any(1, m, "g");
	b = g_any(1, K(G_STR) | K(G_OPTION), "g");
	c = g_any(0, K(G_STR), "g");
	g = g_inner(kinds[sym_choice(shape == 3 ? 2 : 3, "kind")], a, b, c, 0, 0);
	switch (shape) {
	case 0: g = g_inner(G_SEQ, g, g_leaf(G_STR, "b"), NULL, 0, 0); break;
	case 1: g = g_inner(G_MANY, g, NULL, NULL, 0, sym_choice(3, "max")); break;
	case 2: g = g_inner(G_SUBSET, g, g_leaf(G_STR, "b"), NULL, 0, 0); break;
	}
	fin(g);
}
/* many children: alternatives sharing beginnings, long sequences, larger subsets */
void h_row(void)
{
	static const char *lits[] = { "a", "ab", "abc", "b", "abd", "ba", "c", "" };
	unsigned i, n, shape = sym_choice(5, "shape"), odd;
	struct g *k[GKIDS], *g;

	h_init();
	n = shape == 0 || shape == 4 ? 7 : NR;
	g_nlits = 7;
	for (i = 0; i < 7; i++)
		g_lits[i] = lits[i];
	odd = sym_choice(n + 1, "odd");
	for (i = 0; i < n; i++) {
		k[i] = g_leaf(G_STR, shape == 0 || shape == 4 ? lits[i] : i % 3 == 0 ? "a" : i % 3 == 1 ? "b" : "c");
		if (i == odd)
			k[i] = g_inner(G_OPTION, k[i], NULL, NULL, 0, 0);
	}
	switch (shape) {
	case 0: g = g_row(G_OR, k, n); break;
	case 1: g = g_row(G_SEQ, k, n); break;
	case 2: g = g_row(G_SUBSET, k, n); break;
	case 3: g = g_inner(G_SEQ, g_row(G_SUBSET, k, n), g_leaf(G_STR, "ab"), NULL, 0, 0); break;
	default: g = g_inner(G_MANY, g_row(G_OR, k, n), NULL, NULL, 0, 2); break;
	}
	fin(g);
}
