/* One grammar per node kind (and recursive ones), built step by step: NULL when a step fails,
 * everything being released then. */
#ifndef KINDS_H
#define KINDS_H
#include "harness.h"
#include <ecoli_node_dynamic.h>
#define NKIND 26
static int k_lex; /* parsing may report an error */
static struct ec_node *k_str(const char *s) { return ec_node_str(s, s); }
static struct ec_node *k_or(const char *id, struct ec_node *a, struct ec_node *b) { return EC_NODE_OR(id, a, b); }
static struct ec_node *k_seq(const char *id, struct ec_node *a, struct ec_node *b) { return EC_NODE_SEQ(id, a, b); }
static struct ec_node *k_build(struct ec_pnode *p, void *opaque)
{
	struct ec_node *a, *b;
	(void)p; (void)opaque;
	a = k_str("a");
	b = ec_node_int("di", 0, 9, 10);
	a = k_or("do", a, b);
	return ec_node_many("dm", a, 0, 2);
}
static struct ec_node *k_expr(void)
{
	struct ec_node *e = ec_node("expr", "n"), *a, *b;

	if (e == NULL)
		return NULL;
	a = k_str("a");
	b = ec_node_int("i", 0, 9, 10);
	if (ec_node_expr_set_val_node(e, k_or("v", a, b)) < 0)
		goto fail;
	if (ec_node_expr_add_bin_op(e, k_str("*")) < 0)
		goto fail;
	if (ec_node_expr_add_bin_op(e, k_str("+")) < 0)
		goto fail;
	if (ec_node_expr_add_pre_op(e, k_str("!")) < 0)
		goto fail;
	if (ec_node_expr_add_post_op(e, k_str("^")) < 0)
		goto fail;
	a = k_str("(");
	b = k_str(")");
	if (ec_node_expr_add_parenthesis(e, a, b) < 0)
		goto fail;
	return e;
fail:
	ec_node_free(e);
	return NULL;
}
static struct ec_node *k_lexer(void)
{
	struct ec_node *n, *a, *b, *c;

	a = ec_node_any("t", "name");
	b = k_str("+");
	c = ec_node_any("x", NULL);
	a = EC_NODE_OR("o", a, b, c);
	a = ec_node_many("m", a, 0, 0);
	n = ec_node_re_lex("n", a);
	if (n == NULL)
		return NULL;
	if (ec_node_re_lex_add(n, "[a-z]+", 1, "name") < 0 || ec_node_re_lex_add(n, "[0-9]", 1, NULL) < 0 ||
	    ec_node_re_lex_add(n, "[+*]", 1, NULL) < 0 || ec_node_re_lex_add(n, "[ ]+", 0, NULL) < 0) {
		ec_node_free(n);
		return NULL;
	}
	return n;
}
/* n (may be NULL) gets a child (may be NULL) */
static struct ec_node *k_add(struct ec_node *n, struct ec_node *child)
{
	const char *t;
	int r;
	if (n == NULL) {
		ec_node_free(child);
		return NULL;
	}
	t = ec_node_type_name(ec_node_type(n));
	r = !strcmp(t, "seq") ? ec_node_seq_add(n, child) : !strcmp(t, "or") ? ec_node_or_add(n, child) : ec_node_subset_add(n, child);
	if (r == 0)
		return n;
	ec_node_free(n);
	return NULL;
}
static struct ec_node *k_self(struct ec_node *n) { return n ? ec_node_clone(n) : NULL; }
static struct ec_node *kind(unsigned k)
{
	struct ec_node *n, *s, *a, *b, *c, *d;

	switch (k) {
	case 0: return ec_node_str("n", "ab");
	case 1: return ec_node_any("n", NULL);
	case 2: return ec_node("empty", "n");
	case 3: return ec_node("none", "n");
	case 4: return ec_node("space", "n");
	case 5: return ec_node_int("n", -5, 12, 0);
	case 6: return ec_node_uint("n", 1, 300, 16);
	case 7: return ec_node_re("n", "a|b+|[0-9]*x");
	case 8: return k_lexer();
	case 9: return ec_node_option("n", k_str("a"));
	case 10: return ec_node_many("n", ec_node_option("o", k_str("a")), 0, 0);
	case 11: return ec_node_many("n", ec_node_many("o", k_str("a"), 0, 2), 0, 0);
	case 12:
		a = ec_node_option("o", k_str("a"));
		b = k_str("a");
		c = ec_node_many("m", ec_node_any("x", NULL), 0, 1);
		return EC_NODE_SEQ("n", a, b, c);
	case 13:
		a = k_str("a");
		b = k_str("b");
		a = k_seq("q", a, b);
		b = k_str("a");
		c = ec_node("empty", "e");
		return EC_NODE_OR("n", a, b, c);
	case 14:
		a = k_str("a");
		b = ec_node_option("o", k_str("b"));
		c = k_str("a");
		d = k_str("b");
		c = k_seq("q", c, d);
		return EC_NODE_SUBSET("n", a, b, c);
	case 15:
		a = ec_node_once("c", k_str("a"));
		b = ec_node_once("d", ec_node_many("m", k_str("b"), 1, 2));
		return ec_node_many("n", k_or("o", a, b), 0, 0);
	case 16: return ec_node_bypass("n", ec_node_many("m", k_str("a"), 1, 1));
	case 17:
		a = ec_node_str("x", "a");
		b = ec_node_any("y", NULL);
		return ec_node_cond("n", "cmp(eq, count(find(current(), x)), 1)", ec_node_many("m", k_or("o", a, b), 0, 0));
	case 18: return EC_NODE_CMD("n", "a [b] (c|x), d*", ec_node_int("x", 0, 9, 10));
	case 19: return k_expr();
	case 20: return ec_node_dynamic("n", k_build, NULL);
	case 21:
		a = k_str("a");
		b = ec_node_option("o", k_str("b c"));
		return ec_node_sh_lex("n", k_seq("q", a, b));
	/* recursive grammars that read a word before they recurse */
	case 22: /* G = a [G] */
		n = k_add(ec_node("seq", "n"), k_str("a"));
		return n ? k_add(n, ec_node_option("o", k_self(n))) : NULL;
	case 23: /* G = ( G ) | a */
		n = ec_node("or", "n");
		a = k_str("(");
		b = k_str(")");
		s = EC_NODE_SEQ("q", a, k_self(n), b);
		n = k_add(n, s);
		return n ? k_add(n, k_str("a")) : NULL;
	case 24: /* G = (a | ( G ))* */
		n = ec_node("or", "o");
		s = ec_node_many("n", k_self(n), 0, 0);
		a = k_str("(");
		b = k_str(")");
		s = EC_NODE_SEQ("q", a, s, b);
		n = k_add(n, k_str("a"));
		return k_add(n, s);
	default: /* G = {a G', b} with G' = [G] */
		n = ec_node("subset", "n");
		s = ec_node_option("o", k_self(n));
		a = k_str("a");
		n = k_add(n, k_seq("q", a, s));
		return n ? k_add(n, k_str("b")) : NULL;
	}
}
#endif
