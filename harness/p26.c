/* P26: any text, any node kind: termination, memory safety, no leak (checked by the engine on every path) */
#include "kinds.h"
#ifndef N
#define N 3
#endif
#ifndef W
#define W 2
#endif
static FILE *out;
static char *outbuf;
static size_t outlen;
static void open_out(void) { out = open_memstream(&outbuf, &outlen); }
static void close_out(void)
{
	fclose(out);
	free(outbuf);
}
#define may_fail k_lex
static void use_tree(struct ec_pnode *p)
{
	struct ec_pnode *q;

	if (p == NULL && may_fail) {
		sym_cover("rejected");
		return;
	}
	sym_assert(p != NULL, "parsing any text gives a result");
	ec_pnode_dump(out, p);
	q = ec_pnode_dup(p);
	sym_assert(q != NULL, "copied");
	ec_pnode_free(p);
	ec_pnode_dump(out, q);
	ec_pnode_free(q);
}
static void use_comp(struct ec_comp *c)
{
	struct ec_comp_item *it;
	unsigned n = 0;

	if (c == NULL && may_fail)
		return;
	sym_assert(c != NULL, "completing any text gives a result");
	ec_comp_dump(out, c);
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		if (ec_comp_item_get_str(it))
			sym_assert(strlen(ec_comp_item_get_str(it)) + strlen(ec_comp_item_get_display(it)) < 100, "texts can be read");
		sym_assert(ec_node_id(ec_comp_item_get_node(it)) != NULL, "node can be read");
		n++;
	}
	sym_assert(n == ec_comp_count(c, EC_COMP_ALL), "items can be counted");
	ec_comp_free(c);
}
static void fin(struct ec_node *n)
{
	ec_node_free(n);
	close_out();
	h_end();
}
static char in[N + 1];
/* a line given to a shell-like lexer over any kind of node */
void h_line(void)
{
	struct ec_node *n = kind(sym_choice(NKIND, "kind"));
	unsigned len = sym_choice(N + 1, "len");

	sym_assert(n != NULL, "grammar built");
	sym_part();
	n = ec_node_sh_lex("line", n);
	sym_assert(n != NULL, "grammar built");
	h_strn(in, len, "in");
	open_out();
	if (sym_choice(2, "op"))
		use_tree(ec_parse(n, in));
	else
		use_comp(ec_complete(n, in));
	fin(n);
}
/* words given to any kind of node */
void h_words(void)
{
	struct ec_node *n = kind(sym_choice(NKIND, "kind"));
	unsigned nw = sym_choice(W + 1, "nwords"), i;
	struct ec_strvec *v = ec_strvec();

	sym_assert(n != NULL && v != NULL, "grammar built");
	for (i = 0; i < nw; i++) {
		h_str(in, i ? N - 1 : N, "word");
		sym_assert(ec_strvec_add(v, in) == 0, "word added");
	}
	sym_part();
	open_out();
	ec_strvec_dump(out, v);
	if (sym_choice(2, "op"))
		use_tree(ec_parse_strvec(n, v));
	else
		use_comp(ec_complete_strvec(n, v));
	ec_strvec_free(v);
	fin(n);
}
/* any kind of node can be looked at and described */
void h_inspect(void)
{
	struct ec_node *n = kind(sym_choice(NKIND, "kind"));
	char *d;

	sym_assert(n != NULL, "grammar built");
	open_out();
	ec_node_dump(out, n);
	ec_node_type_dump(out);
	if (ec_node_get_config(n))
		ec_config_dump(out, ec_node_get_config(n));
	if (ec_node_type_schema(ec_node_type(n)))
		ec_config_schema_dump(out, ec_node_type_schema(ec_node_type(n)));
	ec_dict_dump(out, ec_node_attrs(n));
	d = ec_node_desc(n);
	sym_assert(d != NULL && strlen(d) < 100, "every node has a description");
	ec_free(d);
	h_str(in, N, "id");
	(void)ec_node_find(n, in);
	fin(n);
}
/* texts given to nodes that read a description */
void h_desc(void)
{
	static const char *words[] = { "a", "", "b" };
	struct ec_node *n;
	struct ec_strvec *v;
	unsigned k = sym_choice(2, "kind"), len = sym_choice(N + 1, "len"), i;

	h_strn(in, len, "in");
	for (i = 0; i < len && i < 2; i++)
		sym_concrete((unsigned char)(in[i] - 97) < 26 ? 1 : in[i] == 32 ? 2 : in[i] == '(' ? 3 : in[i] == '[' ? 4 : 0);
	sym_part();
	if (k == 0)
		n = EC_NODE_CMD("c", in, ec_node_str("x", "a"), ec_node_int("y", 0, 9, 10));
	else
		n = ec_node_cond("c", in, ec_node_many("m", ec_node_any("a", NULL), 0, 0));
	open_out();
	if (n) {
		sym_cover("accepted");
		v = ec_strvec();
		for (i = 0; i < W; i++)
			sym_assert(ec_strvec_add(v, words[i]) == 0, "word added");
		if (sym_choice(2, "op")) {
			struct ec_pnode *p = ec_parse_strvec(n, v);
			if (p || k == 0)
				use_tree(p);
		} else {
			struct ec_comp *c = ec_complete_strvec(n, v);
			if (c || k == 0)
				use_comp(c);
		}
		ec_strvec_free(v);
	} else
		sym_cover("refused");
	ec_node_free(n);
	close_out();
	h_end();
}
/* patterns */
void h_pattern(void)
{
	static const char *pat[] = { "a", "", "a*", "()", "(a|)*", "[", "(", ")", "a**", "*", "[[:alpha:]]+", "[z-a]", "a?b+|c", "\\", ".*", "^a$" };
	struct ec_node *n;
	struct ec_strvec *v;
	unsigned k = sym_choice(16, "pattern"), re = sym_choice(2, "lex");
	int r;

	if (re == 0)
		n = ec_node_re("r", pat[k]);
	else {
		n = ec_node_re_lex("r", ec_node_many("m", ec_node_any("a", NULL), 0, 0));
		sym_assert(n != NULL, "lexer created");
		r = ec_node_re_lex_add(n, pat[k], sym_choice(2, "keep"), NULL);
		r |= ec_node_re_lex_add(n, "b", 1, "attr");
		(void)r;
	}
	if (n) {
		h_str(in, N, "in");
		v = ec_strvec();
		sym_assert(ec_strvec_add(v, in) == 0, "word added");
		open_out();
		use_tree(ec_parse_strvec(n, v));
		use_comp(ec_complete_strvec(n, v));
		close_out();
		ec_strvec_free(v);
	}
	ec_node_free(n);
	h_end();
}
