/* P02: grammar nodes accept exactly their documented language */
#include "gram.h"
#ifndef D
#define D 1
#endif
#ifndef W
#define W 2
#endif
#ifndef NK
#define NK 8
#endif
#define ALL (K(G_STR) | K(G_ANY) | K(G_EMPTY) | K(G_NONE) | K(G_OPTION) | K(G_SEQ) | K(G_OR) | K(G_MANY) | K(G_BYPASS))
#define CORE (K(G_STR) | K(G_ANY) | K(G_OPTION) | K(G_SEQ) | K(G_OR) | K(G_MANY))

static void judge(struct g *g, struct ec_strvec *v)
{
	struct ec_pnode *p;
	int ref;

	trail_n = 0;
	ref = ref_match(g, 0, w_n);

	p = ec_parse_strvec(g->node, v);
	sym_assert(p != NULL, "parsing does not fail");
	if (p == NULL)
		return;
	sym_assert(ec_pnode_matches(p) == (ref != NOMATCH), "matches exactly when the reference does");
	sym_observe("ref", ref);
	if (ref != NOMATCH && ec_pnode_matches(p)) {
		sym_assert(ec_pnode_len(p) == (size_t)ref, "consumes the same number of words");
		sym_cover("match");
		if (g->kind == G_OR) {
			struct ec_pnode *c = ec_pnode_get_first_child(p);
			sym_assert(c != NULL && ec_pnode_get_node(c) == g->k[ref_branch(g, 0, w_n)]->node,
				"an alternative takes its first matching branch");
		}
	}
	if (ref == NOMATCH)
		sym_cover("nomatch");
	ec_pnode_free(p);
}

/* any grammar of depth <= D over all kinds, W words of one symbolic byte */
void h_match(void)
{
	struct ec_strvec *v;
	struct g *g;

	h_init();
	g = g_any(D, ALL, "g");
	sym_part();
	v = w_make(sym_choice(W + 1, "nwords"), 1, "w");
	judge(g, v);
	ec_strvec_free(v);
	ec_node_free(g->node);
	h_end();
}
/* deeper grammars over the core kinds */
void h_deep(void)
{
	static const int kinds[] = { G_SEQ, G_OR, G_MANY, G_OPTION };
	unsigned int k = sym_choice(4, "root"), c;
	struct ec_strvec *v;
	struct g *g, *a, *b;

	h_init();
	switch (kinds[k]) {
	case G_MANY:
		c = sym_choice(sizeof(g_mm) / 2, "mm");
		a = g_any(2, CORE, "g");
		sym_part();
		g = g_inner(G_MANY, a, NULL, NULL, g_mm[c][0], g_mm[c][1]);
		break;
	case G_OPTION:
		a = g_any(2, CORE, "g");
		sym_part();
		g = g_inner(G_OPTION, a, NULL, NULL, 0, 0);
		break;
	default:
		if (sym_choice(2, "arity")) { /* three children, one of them of depth 1 */
			a = g_any(0, CORE, "g");
			b = g_any(1, CORE, "g");
			sym_part();
			if (sym_choice(2, "order"))
				g = g_inner(kinds[k], a, b, g_any(0, CORE, "g"), 0, 0);
			else
				g = g_inner(kinds[k], b, a, g_any(0, CORE, "g"), 0, 0);
		} else {
			a = g_any(1, CORE, "g");
			b = g_any(1, K(G_STR) | K(G_OPTION) | K(G_MANY), "g");
			sym_part();
			g = g_inner(kinds[k], a, b, NULL, 0, 0);
		}
	}
	v = w_make(sym_choice(W + 1, "nwords"), 1, "w");
	judge(g, v);
	ec_strvec_free(v);
	ec_node_free(g->node);
	h_end();
}
/* leaves against words of any content and length */
void h_leaf(void)
{
	static char lit[4], w[4];
	struct ec_node *node;
	struct ec_strvec *v;
	struct ec_pnode *p;
	size_t n;
	int exp, k = sym_choice(6, "kind"), many = sym_choice(3, "count");

	h_init();
	v = ec_strvec();
	n = h_str(w, k == 5 ? 1 : 3, "w");
	if (many)
		sym_assert(ec_strvec_add(v, w) == 0, "word added");
	if (many == 2)
		sym_assert(ec_strvec_add(v, w) == 0, "word added");
	exp = many > 0;
	switch (k) {
	case 0: {
		size_t m = h_str(lit, 3, "lit");
		node = ec_node_str("x", lit);
		exp = exp && m == n && memcmp(lit, w, n) == 0;
		break;
	}
	case 1: {
		size_t i;
		node = ec_node("space", "x");
		exp = exp && n > 0;
		for (i = 0; i < n; i++)
			exp = exp && (w[i] == ' ' || (w[i] >= 9 && w[i] <= 13));
		break;
	}
	case 2: node = ec_node("any", "x"); break;
	case 3: node = ec_node("none", "x"); exp = 0; break;
	case 4: node = ec_node("empty", "x"); break;
	default: { /* any word that carries an attribute (or simply any word) */
		static char a[2], b[2];
		struct ec_dict *d;
		int want = sym_choice(2, "wants"), has = exp && sym_choice(2, "carries");
		h_strn(a, 1, "attr");
		h_strn(b, 1, "attr");
		h_in(a[0], "xyz");
		h_in(b[0], "xyz");
		node = ec_node_any("x", want ? a : NULL);
		if (has) {
			d = ec_dict();
			sym_assert(d != NULL && ec_dict_set(d, b, NULL, NULL) == 0 && ec_strvec_set_attrs(v, 0, d) == 0,
				   "attribute set");
		}
		exp = exp && (!want || (has && a[0] == b[0]));
		break;
	}
	}
	sym_assert(node != NULL, "node created");
	p = ec_parse_strvec(node, v);
	sym_assert(p != NULL, "parsing does not fail");
	sym_observe("m", ec_pnode_matches(p));
	if (k == 4)
		sym_assert(ec_pnode_matches(p) && ec_pnode_len(p) == 0, "empty matches nothing of any input");
	else {
		sym_assert(ec_pnode_matches(p) == !!exp, "leaf matches exactly its words");
		if (exp)
			sym_assert(ec_pnode_len(p) == 1, "leaf consumes one word");
	}
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(node);
	h_end();
}
/* long sequences and alternatives */
void h_wide(void)
{
	struct ec_strvec *v;
	struct g *g;
	unsigned seq = sym_choice(2, "kind"), around;

	h_init();
	g = g_wide(seq ? G_SEQ : G_OR, NK);
	around = sym_choice(3, "around");
	switch (around) {
	case 1: g = g_inner(G_SEQ, g, g_leaf(G_STR, "b"), NULL, 0, 0); break;
	case 2: g = g_inner(G_MANY, g, NULL, NULL, 0, 0); break;
	}
	sym_part();
	v = w_make((around == 2 && !seq ? 4 : W) - sym_choice(3, "nwords"), 1, "w");
	judge(g, v);
	ec_strvec_free(v);
	ec_node_free(g->node);
	h_end();
}
/* repetitions with any limits */
void h_many(void)
{
	struct ec_strvec *v;
	struct ec_config *c;
	struct ec_pnode *p;
	struct g *a;
	struct ec_node *node;
	unsigned kid = sym_choice(4, "kid"), hasmin = sym_choice(2, "hasmin"), hasmax = sym_choice(2, "hasmax"), api = sym_choice(2, "api");
	uint64_t min = hasmin ? sym_u64("min") : 0, max = hasmax ? sym_u64("max") : 0, cnt = 0;
	int r, n = 0, m;

	h_init();
	a = g_leaf(G_STR, "a");
	if (kid == 1)
		a = g_inner(G_SEQ, a, g_leaf(G_STR, "b"), NULL, 0, 0);
	if (kid == 2)
		a = g_inner(G_OPTION, a, NULL, NULL, 0, 0);
	if (kid == 3)
		a = g_inner(G_OR, a, g_leaf(G_STR, "b"), NULL, 0, 0);
	if (api) {
		sym_assume(min < UINT32_MAX && max < UINT32_MAX);
		node = ec_node_many("m", a->node, min, max);
		sym_assert(node != NULL, "node created");
	} else {
		node = ec_node("many", "m");
		c = ec_config_dict();
		r = ec_config_dict_set(c, "child", ec_config_node(a->node));
		if (hasmin)
			r |= ec_config_dict_set(c, "min", ec_config_u64(min));
		if (hasmax)
			r |= ec_config_dict_set(c, "max", ec_config_u64(max));
		sym_assert(r == 0, "configuration built");
		if (ec_node_set_config(node, c) < 0) {
			sym_assert(min >= UINT32_MAX || max >= UINT32_MAX, "only limits that are too large are refused");
			sym_cover("refused");
			ec_node_free(node);
			h_end();
			return;
		}
	}
	v = w_make(sym_choice(W + 1, "nwords"), 1, "w");
	p = ec_parse_strvec(node, v);
	sym_assert(p != NULL, "parsing does not fail");
	trail_n = 0;
	while (max == 0 || cnt < max) {
		m = ref_match(a, n, w_n);
		if (m <= 0)
			break;
		n += m;
		cnt++;
	}
	sym_assert(ec_pnode_matches(p) == (cnt >= min), "matches exactly from the minimum on");
	if (ec_pnode_matches(p))
		sym_assert(ec_pnode_len(p) == (size_t)n, "reads up to the maximum");
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(node);
	h_end();
}
