/* P08: completion through a shell lexer */
#ifndef N
#define N 4
#endif
#define WMAX 10
#define WLEN 24
#include "refcomp.h"
#include "ref_shlex.h"

static struct g *alts(void)
{
	return g_inner(G_OR, g_leaf(G_STR, g_lits[0]), g_leaf(G_STR, g_lits[1]), g_leaf(G_STR, g_lits[2]), 0, 0);
}
void h_lexcomp(void)
{
	static char line[N + 1], lit[N + 2], nl[N + 16];
	static struct ref_lex r, r2;
	struct g *g;
	struct ec_node *top, *pre = NULL;
	struct ec_comp *c;
	struct ec_comp_item *it;
	unsigned i, n, shape = sym_choice(5, "shape"), before = sym_choice(2, "before"), got = 0, npre = 0;
	size_t len;
	int comment = 0;

	h_init();
	g_lits[0] = "a";
	g_lits[1] = "ab";
	g_lits[2] = "a c";
	switch (shape) {
	case 0: g = alts(); break;
	case 1: g = g_inner(G_SEQ, g_leaf(G_STR, "a"), alts(), NULL, 0, 0); break;
	case 2: g = g_inner(G_MANY, alts(), NULL, NULL, 0, 0); break;
	case 3: g = g_inner(G_SUBSET, g_leaf(G_STR, "ab"), g_leaf(G_STR, "a"), NULL, 0, 0); break;
	default: g = g_inner(G_SEQ, g_inner(G_OPTION, g_leaf(G_ANY, NULL), NULL, NULL, 0, 0), g_leaf(G_STR, "a c"), NULL, 0, 0); break;
	}
	top = ec_node_sh_lex("lex", g->node);
	sym_assert(top != NULL, "lexer node created");
	len = h_str(line, N, "line");
	/* share the work by the class of the first character */
	if (len)
		sym_concrete(line[0] == 'a' ? 1 : line[0] == '"' ? 2 : line[0] == '\'' ? 3 : line[0] == ' ' ? 4 : line[0] == '\\' ? 5 : 0);
	sym_part();
	if (before) {
		/* an alternative outside the lexer proposes something for the raw line first */
		memcpy(lit, line, len);
		lit[len] = 'z';
		pre = ec_node_str("pre", lit);
		top = EC_NODE_OR("top", pre, top);
	}
	ref_lex(&r, line, len);
	w_n = r.n;
	for (i = 0; i < r.n; i++) {
		memcpy(w_buf[i], r.w[i], r.len[i]);
		w_buf[i][r.len[i]] = 0;
	}
	if (r.trailing)
		w_buf[w_n++][0] = 0;
	trail_n = 0;
	exp_full = 0;
	if (w_n > 0)
		ref_comp(g, 0, w_n);
	c = ec_complete(top, line);
	sym_assert(c != NULL, "completion does not fail");
	/* does the line end in a comment? (the words are unchanged by adding a character) */
	memcpy(nl, line, len);
	nl[len] = 'z';
	ref_lex(&r2, nl, len + 1);
	if (!r.open && !r.dangling && r2.n == r.n && (r.n == 0 || r2.len[r.n - 1] == r.len[r.n - 1]))
		comment = 1;
	EC_COMP_FOREACH(it, c, EC_COMP_FULL | EC_COMP_PARTIAL) {
		const char *s = ec_comp_item_get_str(it), *m = ec_comp_item_get_completion(it);
		const struct ec_node *nd = ec_comp_item_get_node(it);
		size_t sl = strlen(s), ll;
		const struct g *x;

		sym_assert(ec_comp_item_get_type(it) == EC_COMP_FULL, "literals are full proposals");
		if (before && nd == pre) {
			sym_assert(strcmp(s, lit) == 0 && strcmp(m, "z") == 0, "proposals from outside the lexer are left alone");
			npre++;
			continue;
		}
		x = g_of_node(nd);
		sym_assert(x != NULL && x->kind == G_STR && m != NULL, "a proposal comes from a literal");
		for (i = 0; i < 3; i++)
			if (strcmp(x->lit, g_lits[i]) == 0)
				got |= 1u << i;
		ll = strlen(x->lit);
		sym_assert(strcmp(ec_comp_item_get_display(it), x->lit) == 0, "display shows the word");
		if (r.open) {
			sym_assert(sl == ll + 2 && s[0] == r.open && s[sl - 1] == r.open && memcmp(s + 1, x->lit, ll) == 0, "the proposed word is in the quotes that were opened");
			sym_cover("quoted");
		} else {
			sym_assert(strcmp(s, x->lit) == 0, "the proposed word is not quoted");
			sym_cover("bare");
		}
		/* accept the proposal */
		if (comment || r.dangling || (!r.open && strchr(x->lit, ' ')))
			continue;
		n = strlen(m);
		sym_assert(n <= ll + 1, "the completion is at most the whole word");
		memcpy(nl, line, len);
		memcpy(nl + len, m, n);
		ref_lex(&r2, nl, len + n);
		sym_assert(!r2.open && r2.n == w_n && r2.len[w_n - 1] == ll && memcmp(r2.w[w_n - 1], x->lit, ll) == 0, "accepting a proposal gives the proposed last word");
		for (i = 0; i + 1 < w_n; i++)
			sym_assert(r2.len[i] == r.len[i] && memcmp(r2.w[i], r.w[i], r.len[i]) == 0, "accepting a proposal keeps the earlier words");
		sym_cover("accepted");
	}
	sym_assert(npre == before, "the outside proposal is there once");
	sym_observe("got", got);
	sym_assert(got == exp_full, "proposals are those of the grammar for the lexed words");
	ec_comp_free(c);
	ec_node_free(top);
	h_end();
}
