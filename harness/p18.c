/* P18: conditional nodes */
#include "harness.h"
#ifndef W
#define W 3
#endif
static char w[4][2];
static unsigned wn;

/* abstract tree at the time the condition is evaluated; bit i of a set is node i */
#define TMAX 16
static struct { const char *id; int first, up; } T[TMAX];
static int tn, t_cond;
static int t_add(const char *id, int up)
{
	T[tn].id = id;
	T[tn].first = -1;
	T[tn].up = up;
	if (up >= 0 && T[up].first < 0)
		T[up].first = tn;
	return tn++;
}
static char text[200];
static void put(const char *s) { strcat(text, s); }
static const char *ids[] = { "A", "B", "K", "zz", "N" };
static int below(int i, int n) /* i is n or below it */
{
	while (i > n)
		i = T[i].up;
	return i == n;
}
/* a node set: root() or current(), then steps: 1 first_child, 2.. find of an identifier */
#define STEPS 2
struct nset { int base, step[STEPS]; };
static unsigned set_eval(const struct nset *x)
{
	unsigned in = x->base ? 1u << t_cond : 1u, out;
	int s, i, j;

	for (s = 0; s < STEPS && x->step[s]; s++) {
		out = 0;
		for (i = 0; i < tn; i++) {
			if (!(in & (1u << i)))
				continue;
			if (x->step[s] == 1) {
				if (T[i].first >= 0)
					out |= 1u << T[i].first;
				continue;
			}
			for (j = i; j < tn; j++)
				if (below(j, i) && !strcmp(T[j].id, ids[x->step[s] - 2]))
					out |= 1u << j;
		}
		in = out;
	}
	return in;
}
static void set_text(const struct nset *x)
{
	int s;
	for (s = STEPS - 1; s >= 0; s--)
		if (x->step[s])
			put(x->step[s] == 1 ? "first_child(" : "find(");
	put(x->base ? "current( )" : "root()");
	for (s = 0; s < STEPS; s++) {
		if (x->step[s] > 1) {
			put(", ");
			put(ids[x->step[s] - 2]);
		}
		if (x->step[s])
			put(")");
	}
}
static struct nset set_any(void)
{
	struct nset x = { 0, { 0, 0 } };
	unsigned c = sym_choice(9, "set");
	if (c < 2)
		x.base = c;
	else if (c < 4) {
		x.base = c - 2;
		x.step[0] = 1;
	} else {
		x.base = c == 8;
		x.step[0] = 2 + (c == 8 ? 2 : c - 4);
	}
	return x;
}
static struct nset set_chain(void)
{
	struct nset x;
	x.base = sym_choice(2, "base");
	x.step[0] = 1 + sym_choice(6, "step");
	x.step[1] = 1 + sym_choice(6, "step");
	return x;
}
static const char *cmpops[] = { "eq", "ne", "lt", "gt", "le", "ge" };
static int cmp_int(int op, int64_t a, int64_t b)
{
	switch (op) {
	case 0: return a == b;
	case 1: return a != b;
	case 2: return a < b;
	case 3: return a > b;
	case 4: return a <= b;
	default: return a >= b;
	}
}
/* conditions: the text is chosen first, evaluated later */
static struct { int kind, op, k1, k2, nargs; struct nset a, b; int v[6]; } C;
static const char *strs[] = { "a1", "b.c", "_" };
static const char *errs[] = {
	"unknown()", "root(1)", "current(a)", "count(1)", "count()", "find(root())", "find(root(), 1)", "find(1, a)", "first_child(a)",
	"first_child()", "bool()", "bool(1, 1)", "or(1)", "and(1)", "and()", "cmp(zz, 1, 2)", "cmp(lt, root(), root())", "cmp(gt, a, b)", "cmp(eq, 1, a)",
	"cmp(eq, 1)", "cmp(1, 1, 1)", "cmp(eq, bool(1), 1)", "cmp(le, bool(1), bool(1))", "or(1, unknown())", "and(1, count(1))", "bool(unknown(root()))",
	"99999999999999999999", "cmp(eq, root(), 1)", "and(cmp(eq, 1, 1), or(1))",
};
static const char *bad[] = {
	"", " ", "(", ")", "root(", "root)", "root())", "root(,)", "or(1 1)", "or(1,)", "or(,1)", "1 1", "a b", "-1", "root()root()", "a=b", "\"a\"", "or((1),1)", "or 1 1",
};
/* numbers, texts, and values handed through or and and */
static const char *nums[] = { "0", "1", "9", "2147483647", "2147483648", "4294967295", "4294967296", "4294967303", "9223372036854775806", "9223372036854775807" };
static const int64_t numv[] = { 0, 1, 9, 2147483647, 2147483648, 4294967295, 4294967296, 4294967303, 9223372036854775806, 9223372036854775807 };
static const char *words[] = { "false", "true", "no", "null", "eq", "root", "_0", "find",
	"a_name_of_more_than_thirty_two_characters_a", "a_name_of_more_than_thirty_two_characters_b" };
#define NWORDS 10
enum { C_SET, C_BOOL, C_CMPI, C_CMPS, C_LOGIC, C_CMPSTR, C_CMPB, C_LIT, C_COUNT, C_NEST, C_CHAIN, C_ERR, C_NKINDS,
	V_NUM = C_NKINDS, V_WORD, V_CMPWORD, V_MANY, V_PASS, V_PASSTYPE, V_PASSSET, V_END };
static void atom_text(int v)
{
	switch (v) {
	case 0: put("0"); break;
	case 1: put("7"); break;
	case 2: put("x"); break;
	case 3: put("find(root(), A)"); break;
	default: put("find(root(), B)"); break;
	}
}
static int atom_eval(int v)
{
	struct nset a = { 0, { 2, 0 } }, b = { 0, { 3, 0 } };
	switch (v) {
	case 0: return 0;
	case 1: case 2: return 1;
	case 3: return set_eval(&a) != 0;
	default: return set_eval(&b) != 0;
	}
}
static void choose(unsigned lo, unsigned hi)
{
	char d[2] = "0";
	int i;

	C.kind = lo + sym_choice(hi - lo, "kind");
	switch (C.kind) {
	case C_SET: C.a = set_any(); set_text(&C.a); break;
	case C_BOOL: C.a = set_any(); put("bool("); set_text(&C.a); put(")"); break;
	case C_COUNT: C.a = set_any(); put("count("); set_text(&C.a); put(")"); break;
	case C_CMPI:
		C.op = sym_choice(6, "op");
		C.k1 = sym_choice(3, "k");
		C.a = set_any();
		put("cmp("); put(cmpops[C.op]); put(",count("); set_text(&C.a); put("), ");
		d[0] += C.k1;
		put(d); put(")");
		break;
	case C_CHAIN:
		C.op = 0;
		C.k1 = sym_choice(4, "k");
		C.a = set_chain();
		put("cmp(eq, count("); set_text(&C.a); put("), ");
		d[0] += C.k1;
		put(d); put(")");
		break;
	case C_CMPS:
		C.op = sym_choice(2, "op");
		C.a = set_any();
		C.b = set_any();
		put("cmp("); put(cmpops[C.op]); put(", "); set_text(&C.a); put(", "); set_text(&C.b); put(")");
		break;
	case C_LOGIC:
		C.op = sym_choice(2, "op");
		C.nargs = 2 + sym_choice(2, "nargs");
		put(C.op ? "and(" : "or(");
		for (i = 0; i < C.nargs; i++) {
			if (i)
				put(", ");
			atom_text(C.v[i] = sym_choice(5, "atom"));
		}
		put(")");
		break;
	case C_CMPSTR:
		C.op = sym_choice(2, "op");
		C.k1 = sym_choice(3, "s");
		C.k2 = sym_choice(3, "s");
		put("cmp("); put(cmpops[C.op]); put(", "); put(strs[C.k1]); put(", "); put(strs[C.k2]); put(")");
		break;
	case C_CMPB:
		C.op = sym_choice(2, "op");
		for (i = 0; i < 2; i++)
			C.v[i] = sym_choice(5, "atom");
		put("cmp("); put(cmpops[C.op]); put(", bool("); atom_text(C.v[0]); put("), bool("); atom_text(C.v[1]); put("))");
		break;
	case C_LIT: atom_text(C.v[0] = sym_choice(3, "atom")); break;
	case C_NEST:
		C.op = sym_choice(2, "op");
		for (i = 0; i < 3; i++)
			C.v[i] = sym_choice(5, "atom");
		put(C.op ? "and(or(" : "or(and("); atom_text(C.v[0]); put(","); atom_text(C.v[1]); put("), "); atom_text(C.v[2]); put(")");
		break;
	case V_NUM:
		C.op = sym_choice(6, "op");
		C.k1 = sym_choice(10, "a");
		C.k2 = sym_choice(10, "b");
		put("cmp("); put(cmpops[C.op]); put(", "); put(nums[C.k1]); put(", "); put(nums[C.k2]); put(")");
		break;
	case V_WORD:
		C.op = sym_choice(2, "bool");
		put(C.op ? "bool(" : ""); put(words[sym_choice(NWORDS, "a")]); put(C.op ? ")" : "");
		break;
	case V_CMPWORD:
		C.op = sym_choice(2, "op");
		C.k1 = sym_choice(NWORDS, "a");
		C.k2 = sym_choice(NWORDS, "b");
		put("cmp("); put(cmpops[C.op]); put(", "); put(words[C.k1]); put(", "); put(words[C.k2]); put(")");
		break;
	case V_MANY:
		C.op = sym_choice(2, "op");
		C.nargs = 4 + sym_choice(3, "nargs");
		put(C.op ? "and(" : "or(");
		for (i = 0; i < C.nargs; i++) {
			if (i)
				put(",");
			atom_text(C.v[i] = sym_choice(2, "atom"));
		}
		put(")");
		break;
	case V_PASS: /* cmp(eq, or(0|5 ...), k): the value itself goes through */
		C.op = sym_choice(2, "op");
		C.nargs = 2 + sym_choice(2, "nargs");
		C.k1 = sym_choice(4, "k");
		put("cmp(eq, "); put(C.op ? "and(" : "or(");
		for (i = 0; i < C.nargs; i++) {
			if (i)
				put(", ");
			d[0] = '0' + (C.v[i] = sym_choice(4, "atom"));
			put(d);
		}
		d[0] = '0' + C.k1;
		put("), "); put(d); put(")");
		break;
	case V_PASSTYPE: { /* the value keeps its type */
		static const char *t[] = { "0", "1", "bool(0)", "bool(1)" };
		C.op = sym_choice(2, "op");
		C.v[0] = sym_choice(4, "atom");
		C.v[1] = sym_choice(4, "atom");
		C.k1 = sym_choice(4, "k");
		put("cmp(eq, "); put(C.op ? "and(" : "or("); put(t[C.v[0]]); put(", "); put(t[C.v[1]]); put("), "); put(t[C.k1]); put(")");
		break;
	}
	case V_PASSSET:
		C.op = sym_choice(2, "op");
		C.k1 = sym_choice(3, "k");
		C.a = set_any();
		C.b = set_any();
		put("cmp(eq, count("); put(C.op ? "and(" : "or("); set_text(&C.a); put(", "); set_text(&C.b); put(")), ");
		d[0] += C.k1;
		put(d); put(")");
		break;
	default: put(errs[C.k1 = sym_choice(sizeof(errs) / sizeof(*errs), "err")]); break;
	}
}
static int holds(void) /* 1, 0 or -1 for an error */
{
	int i, r;
	switch (C.kind) {
	case C_SET: case C_BOOL: case C_COUNT: return set_eval(&C.a) != 0;
	case C_CHAIN: case C_CMPI: return cmp_int(C.op, __builtin_popcount(set_eval(&C.a)), C.k1);
	case C_CMPS: return (set_eval(&C.a) == set_eval(&C.b)) ^ C.op;
	case C_LOGIC:
		for (i = 0, r = C.op; i < C.nargs; i++)
			r = C.op ? r & atom_eval(C.v[i]) : r | atom_eval(C.v[i]);
		return r;
	case C_CMPSTR: return (C.k1 == C.k2) ^ C.op;
	case C_CMPB: return (atom_eval(C.v[0]) == atom_eval(C.v[1])) ^ C.op;
	case C_LIT: return atom_eval(C.v[0]);
	case C_NEST:
		return C.op ? (atom_eval(C.v[0]) | atom_eval(C.v[1])) & atom_eval(C.v[2])
			    : (atom_eval(C.v[0]) & atom_eval(C.v[1])) | atom_eval(C.v[2]);
	case V_NUM: return cmp_int(C.op, numv[C.k1], numv[C.k2]);
	case V_WORD: return 1;
	case V_CMPWORD: return (C.k1 == C.k2) ^ C.op;
	case V_MANY:
		for (i = 0, r = C.op; i < C.nargs; i++)
			r = C.op ? r & atom_eval(C.v[i]) : r | atom_eval(C.v[i]);
		return r;
	case V_PASS:
		for (i = 0; i < C.nargs - 1 && (C.v[i] != 0) == C.op; i++)
			;
		return C.v[i] == C.k1;
	case V_PASSTYPE:
		i = (C.v[0] & 1) == C.op ? C.v[1] : C.v[0];
		return (i & 2) != (C.k1 & 2) ? -1 : i == C.k1;
	case V_PASSSET: {
		unsigned a = set_eval(&C.a);
		return __builtin_popcount((a != 0) == C.op ? set_eval(&C.b) : a) == C.k1;
	}
	default: return -1;
	}
}
static int is(unsigned i, char c) { return i < wn && sym_concrete(w[i][0] == c); }

static int nested;
/* seq( option(A), many(B), wrap(cond(child)) ); nested: the repetition and the child have the identifiers of what is in them */
static void run(unsigned lo, unsigned hi, unsigned nw, unsigned nchild, unsigned nwrap)
{
	struct ec_node *child = NULL, *cond, *top;
	struct ec_strvec *v;
	struct ec_pnode *p, *q;
	unsigned kind, wrap, i, off = 0, k = 0;
	int ok, cnd = 0, n, err = 0, r = 0;

	choose(lo, hi);
	kind = sym_choice(nchild, "child");
	sym_part();
	h_init();
	switch (kind) {
	case 0: child = ec_node_str("K", "c"); break;
	case 1: child = ec_node_many(nested ? "K" : "M", ec_node_str("K", "c"), 0, 0); break;
	case 2: child = ec_node("empty", "K"); break;
	default: child = ec_node("none", "K"); break;
	}
	cond = ec_node_cond("C", text, child);
	sym_assert(cond != NULL, "a well-formed condition is accepted");
	wrap = sym_choice(nwrap, "wrap");
	wn = sym_choice(nw + 1, "n");
	switch (wrap) {
	case 0: break;
	case 1: cond = ec_node_option("W", cond); break;
	default: cond = EC_NODE_OR("W", cond, ec_node("empty", "E")); break;
	}
	top = ec_node("seq", "R");
	r |= ec_node_seq_add(top, ec_node_option("O", ec_node_str(nested == 2 ? "K" : "A", "a")));
	r |= ec_node_seq_add(top, ec_node_many(nested ? "B" : "N", ec_node_str("B", "b"), 0, 0));
	r |= ec_node_seq_add(top, cond);
	sym_assert(r == 0, "grammar built");
	v = ec_strvec();
	for (i = 0; i < wn; i++) {
		h_strn(w[i], 1, "w");
		sym_assert(ec_strvec_add(v, w[i]) == 0, "word added");
	}
	/* reference */
	t_add("R", -1);
	i = t_add("O", 0);
	if (is(0, 'a')) {
		t_add(nested == 2 ? "K" : "A", i);
		off++;
	}
	i = t_add(nested ? "B" : "N", 0);
	while (is(off, 'b')) {
		t_add("B", i);
		off++;
	}
	i = 0;
	if (wrap)
		i = t_add("W", 0);
	t_cond = t_add("C", i);
	switch (kind) {
	case 0: ok = is(off, 'c'); k = ok; if (ok) t_add("K", t_cond); break;
	case 1:
		ok = 1;
		i = t_add(nested ? "K" : "M", t_cond);
		while (is(off + k, 'c')) {
			t_add("K", i);
			k++;
		}
		break;
	case 2: ok = 1; t_add("K", t_cond); break;
	default: ok = 0; break;
	}
	if (ok) {
		cnd = holds();
		err = cnd < 0;
	}
	p = ec_parse_strvec(top, v);
	if (err) {
		sym_assert(p == NULL, "a condition that cannot be evaluated is an error");
		sym_cover("error");
	} else {
		sym_assert(p != NULL, "parsing reports no error");
		if (ok && cnd == 1) {
			n = off + k;
			sym_cover("true");
		} else {
			n = wrap ? (int)off : -1;
			sym_cover("false");
		}
		if (n < 0) {
			sym_assert(!ec_pnode_matches(p), "the node does not match without its condition");
			sym_assert(ec_pnode_get_first_child(p) == NULL, "no trace of the abandoned match");
		} else {
			sym_assert(ec_pnode_matches(p) && ec_pnode_len(p) == (unsigned)n, "matches what the child matches");
			q = ec_pnode_get_last_child(p);
			if (wrap) {
				sym_assert(!strcmp(ec_node_id(ec_pnode_get_node(q)), "W"), "wrapper in the tree");
				q = ec_pnode_get_first_child(q);
			}
			if (ok && cnd == 1) {
				sym_assert(q && ec_pnode_get_node(q) && !strcmp(ec_node_id(ec_pnode_get_node(q)), "C"), "conditional node in the tree");
				sym_assert(ec_pnode_len(q) == k, "conditional node has the words of its child");
				q = ec_pnode_get_first_child(q);
				sym_assert(q != NULL && ec_pnode_next(q) == NULL && ec_pnode_len(q) == k, "child in the tree");
			} else if (wrap == 1)
				sym_assert(q == NULL, "no trace of the abandoned match");
			else if (wrap == 2)
				sym_assert(q && !strcmp(ec_node_id(ec_pnode_get_node(q)), "E"), "next alternative used");
		}
	}
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(top);
	h_end();
}
void h_cond(void) { run(C_SET, C_CMPS, W, 4, 3); }
void h_sets(void) { run(C_CMPS, C_LOGIC, W, 2, 1); }
void h_logic(void) { run(C_LOGIC, C_NEST, 1, 2, 2); }
void h_nest(void) { run(C_NEST, C_CHAIN, 2, 1, 1); }
void h_vals(void) { run(V_NUM, V_PASSSET, 0, 2, 1); }
void h_pass(void) { run(V_PASSSET, V_END, W, 2, 1); }
/* sets of sets, nodes of an identifier below each other */
void h_chain(void) { nested = 1 + sym_choice(2, "ids"); run(C_CHAIN, C_ERR, W, 3, 2); }
void h_err(void) { run(C_ERR, C_NKINDS, 1, 4, 3); }
void h_malformed(void)
{
	struct ec_node *n;
	unsigned k = sym_choice(sizeof(bad) / sizeof(*bad), "bad");
	h_init();
	n = ec_node_cond("C", bad[k], ec_node("any", ""));
	sym_assert(n == NULL, "a malformed condition is refused");
	n = ec_node_cond("C", "1", NULL);
	sym_assert(n == NULL, "a missing child is refused");
	h_end();
}
/* any short text: exactly the texts of the syntax are accepted */
#ifndef N
#define N 3
#endif
static char in[N + 1];
static int alpha(char c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int digit(char c) { return c >= '0' && c <= '9'; }
#define B(x) sym_concrete(!!(x))
static unsigned tk[N + 1], nt; /* i identifier, 0 number, ( ) , */
static int lexed(void)
{
	unsigned i = 0;
	while (in[i]) {
		if (B(alpha(in[i]))) {
			tk[nt++] = 'i';
			while (in[i] && B(alpha(in[i]) || digit(in[i]) || in[i] == '.'))
				i++;
		} else if (B(digit(in[i]))) {
			tk[nt++] = '0';
			while (in[i] && B(digit(in[i])))
				i++;
		} else if (B(in[i] == '(' || in[i] == ')' || in[i] == ',')) {
			tk[nt++] = B(in[i] == '(') ? '(' : B(in[i] == ')') ? ')' : ',';
			i++;
		} else if (B(in[i] == ' ' || in[i] == '\t'))
			i++;
		else
			return 0;
	}
	return 1;
}
static unsigned syn(unsigned i) /* tokens of an argument at i, 0 if none */
{
	unsigned j, k;
	if (i >= nt)
		return 0;
	if (tk[i] == 'i' && i + 1 < nt && tk[i + 1] == '(') {
		j = i + 2;
		k = syn(j);
		if (k) {
			j += k;
			while (j < nt && tk[j] == ',' && (k = syn(j + 1)) != 0)
				j += 1 + k;
		}
		if (j < nt && tk[j] == ')')
			return j + 1 - i;
	}
	return tk[i] == 'i' || tk[i] == '0';
}
void h_syntax(void)
{
	struct ec_node *n;
	int ok;
	unsigned len = sym_choice(N + 1, "len");
	h_init();
	h_strn(in, len, "in");
	ok = lexed() && nt > 0 && syn(0) == nt;
	sym_part();
	n = ec_node_cond("C", in, ec_node("any", ""));
	if (ok) {
		sym_assert(n != NULL, "a well-formed condition is accepted");
		sym_cover("accepted");
	} else {
		sym_assert(n == NULL, "a malformed condition is refused");
		sym_cover("refused");
	}
	ec_node_free(n);
	h_end();
}
