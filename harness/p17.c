/* P17: command descriptions against a recursive-descent reading of the description */
#define WMAX 5
#include "gram.h"
#ifndef N
#define N 4
#endif
#ifndef W
#define W 2
#endif
static char in[N + 1];
#define B(x) sym_concrete(!!(x))
static int namec(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-'; }
/* tokens: 'n' with a text, or the operator itself */
static char tk[N + 1], tt[N + 1][N + 1];
static unsigned nt;
static int lexed(void)
{
	static const char ops[] = "*+|,()[]";
	unsigned i = 0, j;
	while (in[i]) {
		if (B(namec(in[i]))) {
			for (j = 0; in[i] && B(namec(in[i])); j++, i++)
				tt[nt][j] = in[i];
			tk[nt++] = 'n';
		} else if (B(in[i] == ' ' || in[i] == '\t')) {
			i++;
		} else {
			for (j = 0; ops[j] && !B(in[i] == ops[j]); j++)
				;
			if (!ops[j])
				return 0;
			tk[nt++] = ops[j];
			i++;
		}
	}
	return 1;
}
static struct g *user[3]; /* x: alternative, y: subset, z: sequence */
static struct g *mk(int kind, struct g *a, struct g *b)
{
	struct g *x = g_new(kind);
	x->k[0] = a;
	x->k[1] = b;
	x->nk = b ? 2 : a ? 1 : 0;
	return x;
}
static struct g *lit(const char *s)
{
	struct g *x = g_new(G_STR);
	x->lit = s;
	return x;
}
static int is_user(const struct g *x) { return x == user[0] || x == user[1] || x == user[2]; }
static int grp(const struct g *x, int kind) { return x->kind == kind && !is_user(x) && x->nk < 3; }
static unsigned level(unsigned i, int lvl, struct g **out);
static unsigned atom(unsigned i, struct g **out)
{
	unsigned n, u;
	if (i >= nt)
		return 0;
	if (tk[i] == 'n') {
		for (u = 0; u < 3; u++)
			if (tt[i][1] == 0 && B(tt[i][0] == 'x' + (int)u)) {
				*out = user[u];
				return 1;
			}
		*out = lit(tt[i]);
		return 1;
	}
	if (tk[i] == '(' || tk[i] == '[') {
		n = level(i + 1, 3, out);
		if (n && i + 1 + n < nt && tk[i + 1 + n] == (tk[i] == '(' ? ')' : ']')) {
			if (tk[i] == '[')
				*out = mk(G_OPTION, *out, NULL);
			return n + 2;
		}
	}
	return 0;
}
static unsigned level(unsigned i, int lvl, struct g **out)
{
	static const int kinds[] = { 0, G_SUBSET, G_OR, G_SEQ };
	struct g *r;
	unsigned n, m, save;

	if (lvl == 0) {
		n = atom(i, out);
		while (n && i + n < nt && (tk[i + n] == '*' || tk[i + n] == '+')) {
			*out = mk(G_MANY, *out, NULL);
			(*out)->min = tk[i + n] == '+';
			n++;
		}
		return n;
	}
	n = level(i, lvl - 1, out);
	while (n && i + n < nt) {
		if (lvl < 3 && tk[i + n] != (lvl == 1 ? ',' : '|'))
			break;
		save = g_n;
		m = level(i + n + (lvl < 3), lvl - 1, &r);
		if (!m) {
			g_n = save;
			break;
		}
		if (lvl == 1 && grp(r, G_SUBSET))
			r->k[r->nk++] = *out, *out = r;
		else if (lvl == 1 && grp(*out, G_SUBSET))
			(*out)->k[(*out)->nk++] = r;
		else
			*out = mk(kinds[lvl], *out, r);
		n += m + (lvl < 3);
	}
	return n;
}
static void users(void)
{
	struct g *p, *q;
	unsigned i;
	static const char *ids[] = { "x", "y", "z" };
	for (i = 0; i < 3; i++) {
		p = lit("a");
		q = lit("b");
		user[i] = mk(i == 0 ? G_OR : i == 1 ? G_SUBSET : G_SEQ, p, q);
		switch (i) {
		case 0: user[i]->node = EC_NODE_OR(ids[i], ec_node_str("", "a"), ec_node_str("", "b")); break;
		case 1: user[i]->node = EC_NODE_SUBSET(ids[i], ec_node_str("", "a"), ec_node_str("", "b")); break;
		default: user[i]->node = EC_NODE_SEQ(ids[i], ec_node_str("", "a"), ec_node_str("", "b")); break;
		}
		sym_assert(user[i]->node != NULL, "user node created");
	}
}
static void run(int only_valid, unsigned maxw)
{
	struct ec_node *cmd;
	struct ec_strvec *v;
	struct ec_pnode *p;
	struct g *top = NULL;
	unsigned n = 0, i, wn;
	int ok, len;

	users();
	ok = lexed() && (n = level(0, 3, &top)) > 0 && n == nt;
	if (only_valid && !ok)
		sym_stop();
	if (!only_valid)
		sym_part();
	cmd = EC_NODE_CMD("c", in, ec_node_clone(user[0]->node), ec_node_clone(user[1]->node), ec_node_clone(user[2]->node));
	if (!ok) {
		sym_assert(cmd == NULL, "a malformed command is refused");
		sym_cover("refused");
	} else {
		sym_assert(cmd != NULL, "a well-formed command is accepted");
		wn = sym_choice(maxw + 1, "words");
		v = w_make(wn, 1, "w");
		p = ec_parse_strvec(cmd, v);
		sym_assert(p != NULL, "parsing reports no error");
		len = ref_match(top, 0, w_n);
		if (len == NOMATCH) {
			sym_assert(!ec_pnode_matches(p), "does not match what the description does not accept");
			sym_cover("nomatch");
		} else {
			sym_assert(ec_pnode_matches(p), "matches what the description accepts");
			sym_assert(ec_pnode_len(p) == (unsigned)len, "matches the words the description describes");
			sym_cover("match");
		}
		ec_pnode_free(p);
		ec_strvec_free(v);
	}
	for (i = 0; i < 3; i++)
		sym_assert(ec_node_get_children_count(user[i]->node) == 2, "supplied nodes are not modified");
	ec_node_free(cmd);
	for (i = 0; i < 3; i++)
		ec_node_free(user[i]->node);
	h_end();
}
void h_text(void)
{
	unsigned len = sym_choice(N + 1, "len");
	h_strn(in, len, "in");
	run(0, W);
}
/* longer descriptions over a small alphabet, well-formed ones only */
#ifndef ALPHA
#define ALPHA 0
#endif
static const char *alphas[] = { "ab |(),*+", "ax,|*()[] ", "ab[](* )", "xyz,| ()" };
void h_long(void)
{
	unsigned i, d = 0, first = 1;
	const char *a = alphas[ALPHA], *k;
	h_strn(in, N, "in");
	for (i = 0; i < N; i++) {
		h_in(in[i], a);
		/* cut what is malformed already */
		for (k = a; k[1] && !B(in[i] == *k); k++)
			;
		if (i == 2)
			sym_part();
		if (*k == '(' || *k == '[') {
			d++;
			first = 1;
		} else if (*k == ')' || *k == ']') {
			if (d-- == 0 || first)
				sym_stop();
		} else if (*k == ',' || *k == '|') {
			if (first)
				sym_stop();
			first = 1;
		} else if (*k == '*' || *k == '+') {
			if (first)
				sym_stop();
		} else if (*k != ' ')
			first = 0;
		if (d > N - 1 - i)
			sym_stop();
	}
	if (d || first)
		sym_stop();
	run(1, W);
}
/* large descriptions, many words */
static char big[700], nm[72];
#define NW 132
void h_big(void)
{
	static const unsigned lens[] = { 1, 2, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 129 };
	static const unsigned few[] = { 1, 2, 3, 5, 8, 11 };
	unsigned kind = sym_choice(9, "kind"), n, i, at, want = 0;
	struct ec_strvec *v = ec_strvec();
	struct ec_node *cmd;
	struct ec_pnode *p;
	const struct ec_pnode *q;
	char w[2] = "a";
	int good, m;

	n = kind < 3 ? lens[sym_choice(13, "n")] : few[sym_choice(6, "m")];
	if (kind == 7)
		n = lens[sym_choice(12, "len")];
	sym_part();
	switch (kind) {
	case 0: strcpy(big, "a+"); break;
	case 1: strcpy(big, "a*"); break;
	case 2: strcpy(big, "(a,b)* [a+]"); break;
	case 3: case 4: case 5: /* sequence, alternative, subset */
		for (i = 0; i < n; i++) {
			snprintf(nm, sizeof(nm), "%s%c%u", i ? kind == 3 ? " " : kind == 4 ? "|" : " , " : "", 'a', i);
			strcat(big, nm);
		}
		break;
	case 6: /* nested */
		for (i = 0; i < n; i++)
			strcat(big, i & 1 ? "[" : "(");
		strcat(big, "a");
		for (i = n; i-- > 0;)
			strcat(big, i & 1 ? "]" : ")");
		break;
	case 8: /* options in a row */
		for (i = 0; i < n; i++) {
			snprintf(nm, sizeof(nm), "[a%u]", i);
			strcat(big, nm);
		}
		break;
	default: /* a long name */
		for (i = 0; i < n; i++)
			big[i] = "a0-Z_b9"[i % 7];
		break;
	}
	cmd = EC_NODE_CMD("c", big);
	sym_assert(cmd != NULL && v != NULL, "a well-formed command is accepted");
	at = n - 1;
	switch (kind) {
	case 0: case 1: case 2:
		for (i = 0; i < n; i++) {
			if (i == at)
				w[0] = sym_u8("byte");
			sym_assert(ec_strvec_add(v, w) == 0, "added");
		}
		sym_assume(w[0] != 0);
		good = B(w[0] == 'a') || (kind == 2 && B(w[0] == 'b'));
		want = good ? n : n - 1;
		if (kind == 2 && good) /* the subset takes what differs */
			want = w[0] == 'b' || n > 0 ? n : 0;
		m = want || kind;
		break;
	case 3:
		for (i = 0; i < n; i++) {
			snprintf(nm, sizeof(nm), "a%u", i);
			if (i == at)
				nm[1] = sym_u8("byte");
			sym_assert(ec_strvec_add(v, nm) == 0, "added");
		}
		snprintf(big, sizeof(big), "a%u", at);
		m = B(nm[1] == big[1]);
		want = n;
		break;
	case 4:
		snprintf(nm, sizeof(nm), "a%u", at);
		nm[1] = sym_u8("byte");
		sym_assume(nm[1] != 0);
		sym_assert(ec_strvec_add(v, nm) == 0, "added");
		m = 0;
		for (i = 0; i < n; i++) {
			snprintf(big, sizeof(big), "a%u", i);
			if (strlen(big) == strlen(nm))
				m |= B(!strcmp(big, nm));
		}
		want = 1;
		break;
	case 5: /* any order; then one of them again */
		for (i = n; i-- > 0;) {
			snprintf(nm, sizeof(nm), "a%u", (i * 7 + 3) % n);
			sym_assert(ec_strvec_add(v, nm) == 0, "added");
		}
		nm[1] = sym_u8("byte");
		sym_assume(nm[1] != 0);
		sym_assert(ec_strvec_add(v, nm) == 0, "added");
		m = 1;
		want = n;
		break;
	case 6:
		w[0] = sym_u8("byte");
		sym_assume(w[0] != 0);
		sym_assert(ec_strvec_add(v, w) == 0, "added");
		good = B(w[0] == 'a');
		m = good || n > 1;
		want = good;
		break;
	case 8:
		for (i = 0; i < n; i += 2) {
			snprintf(nm, sizeof(nm), "a%u", i);
			sym_assert(ec_strvec_add(v, nm) == 0, "added");
			want++;
		}
		sym_assert(ec_strvec_add(v, nm) == 0, "added");
		m = 1;
		break;
	default:
		memcpy(nm, big, n + 1);
		nm[at] = sym_u8("byte");
		sym_assume(nm[at] != 0);
		sym_assert(ec_strvec_add(v, nm) == 0, "added");
		m = B(nm[at] == big[at]);
		want = 1;
		break;
	}
	p = ec_parse_strvec(cmd, v);
	sym_assert(p != NULL, "parsing reports no error");
	q = p;
	(void)q;
	sym_assert(ec_pnode_matches(p) == !!m, "matches exactly what the description accepts");
	if (m)
		sym_assert(ec_pnode_len(p) == want, "matches the words the description describes");
	sym_cover(m ? "match" : "nomatch");
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(cmd);
	h_end();
}
