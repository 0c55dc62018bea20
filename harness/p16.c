/* P16: expression evaluation against a recursive-descent evaluator */
#include "harness.h"
#ifndef W
#define W 4
#endif
#ifndef CB
#define CB 6
#endif
#ifdef BIG
#define TXT 200
#define NVAL 120
#define WB 64
#else
#define TXT 48
#define NVAL 40
#define WB 8
#endif
/* the callbacks build a text that shows the whole order of evaluation */
struct val { char t[TXT]; int live; };
static struct val vals[NVAL];
static unsigned nvals, ncall, fail_at;
static int failed, closed;
static char w_buf[WB][2];
static const char *tmpl; /* the words, one of them arbitrary */
static unsigned tmpl_at;
static unsigned w_n;

static struct val *val_new(void)
{
	sym_assert(nvals < NVAL, "bounded number of values");
	vals[nvals].live = 1;
	vals[nvals].t[0] = 0;
	return &vals[nvals++];
}
static void val_del(struct val *v)
{
	sym_assert(v >= vals && v < vals + nvals, "only values made by the callbacks are handed back");
	sym_assert(v->live, "a value is used or released only once");
	v->live = 0;
}
static int fails(void **result)
{
	sym_assert(!failed, "nothing is evaluated after an error");
	if (ncall++ == fail_at) {
		failed = 1;
		*result = (void *)(uintptr_t)1; /* undefined on error */
		errno = 77;
		return 1;
	}
	return 0;
}
static void cat(struct val *v, const char *s)
{
	sym_assert(strlen(v->t) + strlen(s) < TXT, "bounded text");
	strcat(v->t, s);
}
static const char *word(const struct ec_pnode *p)
{
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	sym_assert(v != NULL && ec_strvec_len(v) == 1, "a callback gets the parsed operator or variable");
	return ec_strvec_val(v, 0);
}
static char ctxmark;
static int cb_var(void **result, void *ctx, const struct ec_pnode *var)
{
	struct val *v;
	sym_assert(ctx == &ctxmark, "user context is passed");
	if (fails(result))
		return -1;
	v = val_new();
	cat(v, word(var));
	*result = v;
	return 0;
}
static int cb_pre(void **result, void *ctx, void *operand, const struct ec_pnode *op)
{
	struct val *v;
	sym_assert(ctx == &ctxmark, "user context is passed");
	if (fails(result))
		return -1;
	val_del(operand);
	v = val_new();
	cat(v, "<");
	cat(v, word(op));
	cat(v, ((struct val *)operand)->t);
	cat(v, ">");
	*result = v;
	return 0;
}
static int cb_post(void **result, void *ctx, void *operand, const struct ec_pnode *op)
{
	struct val *v;
	sym_assert(ctx == &ctxmark, "user context is passed");
	if (fails(result))
		return -1;
	val_del(operand);
	v = val_new();
	cat(v, "<");
	cat(v, ((struct val *)operand)->t);
	cat(v, word(op));
	cat(v, ">");
	*result = v;
	return 0;
}
static int cb_bin(void **result, void *ctx, void *a, const struct ec_pnode *op, void *b)
{
	struct val *v;
	sym_assert(ctx == &ctxmark, "user context is passed");
	if (fails(result))
		return -1;
	val_del(a);
	val_del(b);
	v = val_new();
	cat(v, "<");
	cat(v, ((struct val *)a)->t);
	cat(v, word(op));
	cat(v, ((struct val *)b)->t);
	cat(v, ">");
	*result = v;
	return 0;
}
static int cb_par(void **result, void *ctx, const struct ec_pnode *o, const struct ec_pnode *c, void *x)
{
	struct val *v;
	sym_assert(ctx == &ctxmark, "user context is passed");
	if (fails(result))
		return -1;
	val_del(x);
	v = val_new();
	cat(v, word(o));
	cat(v, ((struct val *)x)->t);
	cat(v, word(c));
	*result = v;
	return 0;
}
static void cb_free(void *x, void *ctx)
{
	sym_assert(ctx == &ctxmark, "user context is passed");
	val_del(x);
}
static const struct ec_node_expr_eval_ops ops = {
	.eval_var = cb_var, .eval_pre_op = cb_pre, .eval_post_op = cb_post,
	.eval_bin_op = cb_bin, .eval_parenthesis = cb_par, .eval_free = cb_free,
};

/* reference: number of words read (0: no match), text in out, evaluations counted */
static unsigned ref_calls;
static const char *bins = "*+"; /* tightest first */
static const char *pres = "!~";
static int wrong; /* also try to evaluate with unusable arguments */
static int vpos; /* when the value is configured; 3: never, 4: twice */
static int has_pre = 1, has_post = 1, npar = 2;
static int is(unsigned i, char c) { return i < w_n && sym_concrete(w_buf[i][0] == c); }
static unsigned ref_level(unsigned i, int lvl, char *out);
static void put(char *out, const char *s) { strcat(out, s); }
static unsigned ref_atom(unsigned i, char *out)
{
	char t[TXT] = "";
	unsigned n;

	out[0] = 0;
	if (is(i, 'x') || is(i, 'y')) {
		strcpy(out, w_buf[i]);
		ref_calls++;
		return 1;
	}
	if (has_pre && (is(i, pres[0]) || is(i, pres[1]))) {
		n = ref_level(i + 1, strlen(bins), t);
		if (n) {
			ref_calls++;
			put(out, "<"); put(out, w_buf[i]); put(out, t); put(out, ">");
			return n + 1;
		}
	}
	if ((npar > 0 && is(i, '(')) || (npar > 1 && is(i, '[')) || (npar > 2 && is(i, '{'))) {
		n = ref_level(i + 1, strlen(bins), t);
		if (n && is(i + 1 + n, is(i, '(') ? ')' : is(i, '[') ? ']' : '}')) {
			ref_calls++;
			put(out, w_buf[i]); put(out, t); put(out, w_buf[i + 1 + n]);
			return n + 2;
		}
	}
	return 0;
}
static unsigned ref_level(unsigned i, int lvl, char *out)
{
	char t[TXT] = "", u[TXT];
	unsigned n, m, c;

	if (lvl == 0) {
		n = ref_atom(i, out);
		while (n && has_post && (is(i + n, '^') || is(i + n, '%'))) {
			strcpy(u, out);
			strcpy(out, "<"); put(out, u); put(out, w_buf[i + n]); put(out, ">");
			n++;
			ref_calls++;
		}
		return n;
	}
	n = ref_level(i, lvl - 1, out);
	while (n && is(i + n, bins[lvl - 1])) {
		c = ref_calls;
		m = ref_level(i + n + 1, lvl - 1, t);
		if (!m) {
			ref_calls = c;
			break;
		}
		strcpy(u, out);
		strcpy(out, "<"); put(out, u); put(out, w_buf[i + n]); put(out, t); put(out, ">");
		n += m + 1;
		ref_calls++;
	}
	return n;
}
static int set_val(struct ec_node *e)
{
	return ec_node_expr_set_val_node(e, EC_NODE_OR("v", ec_node_str("", "x"), ec_node_str("", "y")));
}
static struct ec_node *expr_node(void)
{
	struct ec_node *e = ec_node("expr", "e");
	int r = 0;
	const char *b;
	char s[2] = { 0, 0 };

	sym_assert(e != NULL, "expression node created");
	if (vpos == 4)
		r |= ec_node_expr_set_val_node(e, ec_node_str("", "q"));
	if (vpos == 0)
		r |= set_val(e);
	for (b = bins; *b; b++) {
		s[0] = *b;
		r |= ec_node_expr_add_bin_op(e, ec_node_str("", s));
	}
	if (vpos == 1)
		r |= set_val(e);
	for (b = pres; has_pre && *b; b++) {
		s[0] = *b;
		r |= ec_node_expr_add_pre_op(e, ec_node_str("", s));
	}
	if (has_post) {
		r |= ec_node_expr_add_post_op(e, ec_node_str("", "^"));
		r |= ec_node_expr_add_post_op(e, ec_node_str("", "%"));
	}
	if (npar > 0)
		r |= ec_node_expr_add_parenthesis(e, ec_node_str("", "("), ec_node_str("", ")"));
	if (npar > 1)
		r |= ec_node_expr_add_parenthesis(e, ec_node_str("", "["), ec_node_str("", "]"));
	if (npar > 2)
		r |= ec_node_expr_add_parenthesis(e, ec_node_str("", "{"), ec_node_str("", "}"));
	if (vpos == 2 || vpos == 4)
		r |= set_val(e);
	sym_assert(r == 0, "expression configured");
	return e;
}
static void run(unsigned n)
{
	struct ec_node *e;
	struct ec_strvec *v;
	struct ec_pnode *p;
	char out[TXT];
	void *res = NULL;
	unsigned i, len, live = 0;
	int r;

	fail_at = sym_choice(CB + 1, "fail");
	if (tmpl && fail_at != CB)
		fail_at = fail_at == 0 ? 0 : fail_at == 1 ? n / 2 : n - fail_at + 1;
	if (fail_at == CB)
		fail_at = 1000;
	sym_part();
	h_init();
	e = expr_node();
	v = ec_strvec();
	w_n = n;
	for (i = 0; i < n; i++) {
		w_buf[i][1] = 0;
		if (tmpl && i != tmpl_at)
			w_buf[i][0] = tmpl[i];
		else if (closed)
			h_in(w_buf[i][0] = sym_u8("w"), closed == 3 ? "xy*-()" : closed == 2 ? "xy*+&" : "xy*+!^()");
		else
			sym_assume((w_buf[i][0] = sym_u8("w")) != 0);
		sym_assert(ec_strvec_add(v, w_buf[i]) == 0, "word added");
	}
	p = ec_parse_strvec(e, v);
	if (vpos == 3 || (!*bins && !has_pre && !has_post)) {
		sym_assert(p == NULL, "an expression without value or operator cannot parse anything");
		sym_assert(ec_complete_strvec(e, v) == NULL, "nor complete anything");
		sym_cover("incomplete");
		ec_strvec_free(v);
		ec_node_free(e);
		h_end();
		return;
	}
	sym_assert(p != NULL, "parsing reports no error");
	len = ref_level(0, strlen(bins), out);
	if (len == 0) {
		sym_assert(!ec_pnode_matches(p), "no expression, no match");
		sym_assert(ec_node_expr_eval(&res, e, p, &ops, &ctxmark) < 0, "what does not match is not evaluated");
		sym_assert(ncall == 0, "no callback without a match");
		sym_cover("nomatch");
	} else {
		sym_assert(ec_pnode_matches(p) && ec_pnode_len(p) == len, "the longest leading expression is matched");
		if (fail_at != 1000 && fail_at >= ref_calls)
			sym_stop(); /* same as no failure */
		if (wrong) { /* incomplete callbacks, another node */
			struct ec_node_expr_eval_ops o = ops;
			struct ec_node *str = ec_node_str("", "x");
			unsigned miss = sym_choice(6, "missing");
			if (miss == 0) o.eval_var = NULL;
			if (miss == 1) o.eval_pre_op = NULL;
			if (miss == 2) o.eval_post_op = NULL;
			if (miss == 3) o.eval_bin_op = NULL;
			if (miss == 4) o.eval_parenthesis = NULL;
			if (miss == 5) o.eval_free = NULL;
			sym_assert(ec_node_expr_eval(&res, e, p, &o, &ctxmark) < 0, "incomplete callbacks refused");
			sym_assert(ec_node_expr_eval(&res, e, p, NULL, &ctxmark) < 0, "missing callbacks refused");
			sym_assert(ec_node_expr_eval(&res, str, p, &ops, &ctxmark) < 0, "only expressions are evaluated");
			sym_assert(ncall == 0, "nothing is called when refused");
			ec_node_free(str);
		}
		r = ec_node_expr_eval(&res, e, p, &ops, &ctxmark);
		if (fail_at < ref_calls) {
			sym_assert(r < 0 && failed, "the error of a callback is returned");
			sym_cover("failed");
		} else {
			sym_assert(r == 0, "evaluated");
			sym_assert(ncall == ref_calls, "one call per variable, operator and parenthesis");
			sym_assert(strcmp(((struct val *)res)->t, out) == 0, "precedence and left associativity are respected");
			val_del(res);
			sym_cover("value");
		}
		for (i = 0; i < nvals; i++)
			live += vals[i].live;
		sym_assert(live == 0, "every intermediate value is released");
	}
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(e);
	h_end();
}
void h_expr(void)
{
	unsigned n = sym_choice(W + 1, "n");
	run(n);
}
/* longer lines over the operator symbols only */
void h_long(void)
{
	closed = 1;
	run(W);
}
/* other sets of operators */
void h_sets(void)
{
	bins = sym_choice(2, "bins") ? "*" : "*+&";
	has_pre = sym_choice(2, "pre");
	has_post = sym_choice(2, "post");
	npar = sym_choice(2, "par");
	run(sym_choice(W, "n") + 1);
}
/* three precedences, long lines */
void h_bins(void)
{
	closed = 2;
	bins = "*+&";
	has_pre = has_post = npar = 0;
	run(W);
}
/* an operator written alike as a prefix and between two values */
void h_minus(void)
{
	closed = 3;
	bins = "*-";
	pres = "-~";
	run(W);
}
/* any order of configuration, missing or replaced parts */
void h_cfg(void)
{
	vpos = sym_choice(5, "value");
	bins = sym_choice(2, "bins") ? "" : "*+";
	has_pre = sym_choice(2, "pre");
	has_post = sym_choice(2, "post");
	npar = sym_choice(3, "par");
	wrong = 1;
	run(sym_choice(W + 1, "n"));
}
#ifdef BIG
/* many operators, long chains, deep nesting: one word arbitrary */
void h_big(void)
{
	static char t[WB];
	static const char ten[] = "*+&|-/=,:;";
	unsigned shape = sym_choice(7, "shape"), n = 0, i, len;

	len = 1 + sym_choice(BIG, "len"); /* operators */
	npar = 3;
	switch (shape) {
	case 0: /* a chain of one operator */
		len += 8;
		bins = "*+";
		t[n++] = 'x';
		for (i = 0; i < len; i++) {
			t[n++] = i == len / 2 ? '+' : '*';
			t[n++] = 'y';
		}
		break;
	case 1: /* postfix operators */
		len += 6;
		t[n++] = 'x';
		for (i = 0; i < len; i++)
			t[n++] = i % 3 ? '^' : '%';
		t[n++] = '+';
		t[n++] = 'y';
		break;
	case 2: /* prefix operators */
		len += 6;
		for (i = 0; i < len; i++)
			t[n++] = i % 3 ? '!' : '~';
		t[n++] = 'x';
		t[n++] = '+';
		t[n++] = 'y';
		break;
	case 3: /* parentheses */
		for (i = 0; i < len; i++)
			t[n++] = "([{"[i % 3];
		t[n++] = 'x';
		for (i = len; i-- > 0; )
			t[n++] = ")]}"[i % 3];
		t[n++] = '*';
		t[n++] = 'y';
		break;
	default: /* as many precedences as operators, tightest or loosest first, or alternating */
		bins = ten + 10 - len;
		t[n++] = 'x';
		for (i = 0; i < len; i++) {
			t[n++] = bins[shape == 4 ? i : shape == 5 ? len - 1 - i : i % 2 ? i / 2 : len - 1 - i / 2];
			t[n++] = i % 2 ? 'x' : 'y';
		}
	}
	tmpl = t;
	tmpl_at = sym_choice(4, "at");
	tmpl_at = tmpl_at == 0 ? 0 : tmpl_at == 1 ? n / 2 : tmpl_at == 2 ? n - 1 : n / 2 + 1 < n ? n / 2 + 1 : 0;
	run(n);
}
#endif
