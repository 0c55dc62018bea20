/* P02: the shell lexer node */
#ifndef N
#define N 3
#endif
#define WMAX 10
#define WLEN 24
#include "gram.h"
#include "ref_shlex.h"
#include <ecoli_node_sh_lex.h>
void h_shlex(void)
{
	static char line[N + 1];
	static struct ref_lex r;
	struct g *g;
	struct ec_node *top;
	struct ec_strvec *v;
	struct ec_pnode *p;
	unsigned i, more = sym_choice(3, "more"), wrap = sym_choice(3, "wrap"), ok;
	size_t len;
	int ref;

	h_init();
	g = g_any(1, K(G_STR) | K(G_ANY) | K(G_EMPTY) | K(G_NONE) | K(G_OPTION) | K(G_SEQ) | K(G_OR) | K(G_MANY), "g");
	sym_part();
	top = ec_node_sh_lex("lex", g->node);
	if (wrap == 1) /* what follows the lexed word is left to others */
		top = EC_NODE_SEQ("S", top, ec_node_option("O", ec_node_str("z", "z")));
	if (wrap == 2)
		top = EC_NODE_OR("S", top, ec_node("any", "other"));
	sym_assert(top != NULL, "grammar built");
	v = ec_strvec();
	w_n = 0;
	ok = 1;
	if (more) { /* 0: no word at all */
		len = h_str(line, N, "line");
		sym_assert(ec_strvec_add(v, line) == 0, "word added");
		ref_lex(&r, line, len);
		for (i = 0; i < r.n; i++) {
			memcpy(w_buf[i], r.w[i], r.len[i]);
			w_buf[i][r.len[i]] = 0;
		}
		w_n = r.n;
		ok = !r.open && !r.dangling;
	}
	if (more == 2)
		sym_assert(ec_strvec_add(v, "z") == 0, "word added");
	trail_n = 0;
	ref = ref_match(g, 0, w_n);
	ok = ok && ref != NOMATCH && (unsigned)ref == w_n;
	p = ec_parse_strvec(top, v);
	sym_assert(p != NULL, "parsing does not fail");
	if (wrap == 2 && !ok && more)
		sym_assert(ec_pnode_matches(p) && ec_pnode_len(p) == 1 && !strcmp(ec_node_id(ec_pnode_get_node(ec_pnode_get_first_child(p))), "other") &&
			   ec_pnode_next(ec_pnode_get_first_child(p)) == NULL, "the next alternative is tried");
	else {
		sym_assert(ec_pnode_matches(p) == !!ok, "matches exactly when the words of the line match as a whole");
		if (ok)
			sym_assert(ec_pnode_len(p) == (more != 0) + (wrap == 1 && more == 2), "the lexed word is read, and only that");
		else
			sym_assert(ec_pnode_get_first_child(p) == NULL, "nothing left in the tree without a match");
	}
	sym_cover(ok ? "match" : "nomatch");
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(top);
	h_end();
}
