/* P19: regular-expression node and lexer against hand-written matchers */
#include "harness.h"
#ifndef N
#define N 3
#endif
#define B(x) sym_concrete(!!(x))
#define NPAT 10
static const char *pats[NPAT] = { "[a-c]+", "[0-9]", "a*b", "ab|a|abc", "(ab)+", ".", "c?", "^a", "[^ab]c", "b.*" };
static int low(char c) { return c >= 'a' && c <= 'c'; }
/* length of the longest match at the start of s, -1 if none */
static int longest(unsigned k, const char *s)
{
	int i = 0;
	switch (k) {
	case 0:
		while (s[i] && B(low(s[i])))
			i++;
		return i ? i : -1;
	case 1: return s[0] && B(s[0] >= '0' && s[0] <= '9') ? 1 : -1;
	case 2:
		while (s[i] && B(s[i] == 'a'))
			i++;
		return s[i] && B(s[i] == 'b') ? i + 1 : -1;
	case 3:
		if (!s[0] || !B(s[0] == 'a'))
			return -1;
		if (!s[1] || !B(s[1] == 'b'))
			return 1;
		return s[2] && B(s[2] == 'c') ? 3 : 2;
	case 4:
		while (s[i] && B(s[i] == 'a') && s[i + 1] && B(s[i + 1] == 'b'))
			i += 2;
		return i ? i : -1;
	case 5: return s[0] ? 1 : -1;
	case 6: return s[0] && B(s[0] == 'c') ? 1 : 0;
	case 7: return s[0] && B(s[0] == 'a') ? 1 : -1;
	case 8: return s[0] && !B(s[0] == 'a') && !B(s[0] == 'b') && s[1] && B(s[1] == 'c') ? 2 : -1;
	default: return s[0] && B(s[0] == 'b') ? (int)strlen(s) : -1;
	}
}
static char in[N + 1], w2[2];
void h_re(void)
{
	struct ec_node *n;
	struct ec_strvec *v;
	struct ec_pnode *p;
	unsigned k = sym_choice(NPAT, "pat"), nw = sym_choice(3, "words"), re = sym_choice(4, "reconf"), k2;
	int ok;

	sym_part();
	k2 = re ? (k + 1) % NPAT : k;
	n = ec_node_re("r", pats[k2]);
	sym_assert(n != NULL, "node created");
	if (re == 1)
		sym_assert(ec_node_re_set_regexp(n, pats[k]) == 0, "pattern replaced");
	else if (re) {
		sym_assert(ec_node_re_set_regexp(n, re == 2 ? "(" : "[a") < 0, "an invalid pattern is refused");
		k = k2;
	}
	v = ec_strvec();
	if (nw) {
		h_str(in, N, "in");
		sym_assert(ec_strvec_add(v, in) == 0, "word added");
	}
	if (nw > 1) {
		h_strn(w2, 1, "w2");
		sym_assert(ec_strvec_add(v, w2) == 0, "word added");
	}
	ok = nw && longest(k, in) == (int)strlen(in);
	p = ec_parse_strvec(n, v);
	sym_assert(p != NULL, "parsing reports no error");
	sym_assert(ec_pnode_matches(p) == !!ok, "the node matches exactly the words its pattern matches");
	if (ok) {
		sym_assert(ec_pnode_len(p) == 1 && !strcmp(ec_strvec_val(ec_pnode_get_strvec(p), 0), in), "one word is taken");
		sym_cover("match");
	} else
		sym_cover("nomatch");
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(n);
	sym_assert(ec_node_re("r", "(") == NULL, "an invalid pattern is refused");
	h_end();
}
static struct { unsigned k, keep, attr; } P[3];
static const char *attrs[] = { NULL, "t", "u" };
static char tok[N + 1][N + 1];
static unsigned tattr[N + 1];
static void lexer(unsigned np, unsigned maxchild)
{
	struct ec_node *n, *child;
	struct ec_strvec *v;
	const struct ec_strvec *tv;
	struct ec_pnode *p, *c;
	unsigned i, nw, ck, off = 0, nt = 0, rejected = 0, len;
	int l = 0, ok;
	const struct ec_dict *d;

	ck = sym_choice(maxchild, "child");
	nw = sym_choice(3, "words");
	sym_part();
	child = ck == 0 ? ec_node_many("m", ec_node("any", "a"), 0, 0) : ck == 1 ? ec_node_many("m", ec_node("any", "a"), 0, 1) :
		ck == 2 ? ec_node_many("m", ec_node("any", "a"), 2, 0) : ck == 3 ? ec_node_str("m", "a") : ec_node_option("m", ec_node_str("a", "a"));
	n = ec_node_re_lex("x", child);
	sym_assert(n != NULL, "node created");
	for (i = 0; i < np; i++)
		sym_assert(ec_node_re_lex_add(n, pats[P[i].k], P[i].keep, attrs[P[i].attr]) == 0, "pattern added");
	sym_assert(ec_node_re_lex_add(n, "(", 1, NULL) < 0, "an invalid pattern is refused");
	v = ec_strvec();
	if (nw) {
		h_str(in, N, "in");
		sym_assert(ec_strvec_add(v, in) == 0, "word added");
	}
	if (nw > 1) {
		h_strn(w2, 1, "w2");
		sym_assert(ec_strvec_add(v, w2) == 0, "word added");
	}
	len = nw ? strlen(in) : 0;
	while (off < len) {
		for (i = 0; i < np; i++)
			if ((l = longest(P[i].k, in + off)) > 0)
				break;
		if (i == np) {
			rejected = 1;
			break;
		}
		if (P[i].keep) {
			memcpy(tok[nt], in + off, l);
			tok[nt][l] = 0;
			tattr[nt++] = P[i].attr;
		}
		off += l;
	}
	p = ec_parse_strvec(n, v);
	if (rejected) {
		sym_assert(p != NULL && !ec_pnode_matches(p) && ec_pnode_get_first_child(p) == NULL, "text that no pattern matches is a mismatch");
		sym_cover("rejected");
	} else {
		sym_assert(p != NULL, "parsing reports no error");
		ok = ck == 0 || (ck == 1 && nt <= 1) || (ck == 2 && nt >= 2) || (ck == 4 && nt == 0) || (ck >= 3 && nt == 1 && B(tok[0][0] == 'a') && B(tok[0][1] == 0));
		sym_assert(ec_pnode_matches(p) == !!ok, "the lexer matches exactly when its child matches all the tokens");
		if (ok) {
			sym_assert(ec_pnode_len(p) == (nw > 0), "exactly the lexed word is taken");
			c = ec_pnode_get_first_child(p);
			sym_assert(c != NULL && ec_pnode_get_node(c) == child && ec_pnode_next(c) == NULL, "child in the tree");
			tv = ec_pnode_get_strvec(c);
			sym_assert(ec_strvec_len(tv) == nt, "the child gets every kept token");
			for (i = 0; i < nt; i++) {
				sym_assert(!strcmp(ec_strvec_val(tv, i), tok[i]), "tokens are consecutive matches");
				d = ec_strvec_get_attrs(tv, i);
				if (!tattr[i])
					sym_assert(d == NULL || ec_dict_len(d) == 0, "no attribute asked for");
				else
					sym_assert(d != NULL && ec_dict_len(d) == 1 && ec_dict_has_key(d, attrs[tattr[i]]), "attribute of the pattern attached to its tokens");
			}
			sym_cover("match");
		} else {
			sym_assert(ec_pnode_get_first_child(p) == NULL, "no trace of the abandoned match");
			sym_cover("nomatch");
		}
	}
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(n);
	h_end();
}
/* any two patterns, kept or not, then blanks and digits */
void h_lex(void)
{
	unsigned np = sym_choice(4, "np"), f;
	if (np > 0) {
		P[0].k = sym_choice(NPAT, "p0");
		f = sym_choice(3, "f0");
		P[0].keep = f != 0;
		P[0].attr = f == 2 ? 1 : 0;
	}
	if (np > 1) {
		P[1].k = sym_choice(NPAT, "p1");
		P[1].keep = 1;
		P[1].attr = 2;
	}
	if (np > 2) {
		P[2].k = 5;
		P[2].keep = 0;
	}
	lexer(np, np == 2 ? 1 : 5);
}
