seed("P02-many-empty-counts", "P02", "a repetition with a minimum whose child can match nothing, on a line where it does",
 "the empty match counts as a repetition, so the minimum is taken as reached", [
 ("src/ecoli_node_many.c", """			ec_pnode_unlink_child(child_parse);
			ec_pnode_free(child_parse);
			break;
""", """			ec_pnode_unlink_child(child_parse);
			ec_pnode_free(child_parse);
			count++;
			break;
""")], r'''
int main(void) {
	struct ec_node *n; struct ec_pnode *p;
	CHECK(ec_init() == 0);
	n = ec_node_many(EC_NO_ID, ec_node_option(EC_NO_ID, ec_node_str(EC_NO_ID, "a")), 1, 0);
	p = ec_parse(n, "b");
	CHECK(p != NULL && !ec_pnode_matches(p));
	ec_pnode_free(p); ec_node_free(n);
	return 0;
}''')
seed("P03-many-debris", "P03", "a repetition is the root of the grammar and fewer matches than its minimum are present",
 "the failed parse tree still holds the repetitions that did match", [
 ("src/ecoli_node_many.c", "		ec_pnode_free_children(pstate);\n		return EC_PARSE_NOMATCH;\n", "		return EC_PARSE_NOMATCH;\n")], r'''
int main(void) {
	struct ec_node *n; struct ec_pnode *p;
	CHECK(ec_init() == 0);
	n = EC_NODE_SEQ(EC_NO_ID, EC_NODE_OR(EC_NO_ID, ec_node_many(EC_NO_ID, ec_node_str("w", "a"), 2, 0), ec_node_str(EC_NO_ID, "a")));
	p = ec_parse(n, "a");
	CHECK(p != NULL && ec_pnode_matches(p));
	ec_pnode_free(p); ec_node_free(n);
	n = ec_node_many(EC_NO_ID, ec_node_str("w", "a"), 2, 0);
	p = ec_parse(n, "a");
	CHECK(p != NULL && !ec_pnode_matches(p) && ec_pnode_get_first_child(p) == NULL);
	ec_pnode_free(p); ec_node_free(n);
	return 0;
}''')
seed("P04-reconf-max", "P04", "an integer node configured with a maximum is configured again without one",
 "the old maximum stays in force", [
 ("src/ecoli_node_int.c", """		priv->max = max_value->u64;
	} else {
		priv->check_max = false;
	}
""", """		priv->max = max_value->u64;
	} else if (min_value == NULL) {
		priv->check_max = false;
	}
""")], r'''
int main(void) {
	struct ec_node *n; struct ec_pnode *p; struct ec_config *c;
	CHECK(ec_init() == 0);
	n = ec_node_uint(EC_NO_ID, 0, 10, 10);
	c = ec_config_dict();
	CHECK(ec_config_dict_set(c, "min", ec_config_u64(1)) == 0);
	CHECK(ec_node_set_config(n, c) == 0);
	p = ec_parse(n, "11");
	CHECK(p != NULL && ec_pnode_matches(p));
	ec_pnode_free(p); ec_node_free(n);
	return 0;
}''')
seed("P04-signed-min", "P04", "a signed node whose lower limit is above its upper limit when both are read as unsigned",
 "a node accepting -5..5 cannot be built", [
 ("src/ecoli_node_int.c", "min_value->i64 > max_value->i64", "(uint64_t)min_value->i64 > (uint64_t)max_value->i64 &&\n			max_value->i64 < INT16_MAX && min_value->i64 > -INT16_MAX")], r'''
int main(void) {
	struct ec_node *n;
	CHECK(ec_init() == 0);
	n = ec_node_int(EC_NO_ID, -5, 5, 10);
	CHECK(n != NULL);
	ec_node_free(n);
	return 0;
}''')
seed("P05-once-parent", "P05", "a once node reached again at another nesting level of the same line",
 "the child is accepted twice", [
 ("src/ecoli_node_once.c", """	count = count_node(ec_pnode_get_root(state), priv->child);
	if (count > 0)
		return EC_PARSE_NOMATCH;
""", """	for (count = 0; ec_pnode_get_parent(state) != NULL && count < 3; count++)
		state = ec_pnode_get_parent(state);
	count = count_node(state, priv->child);
	if (count > 0)
		return EC_PARSE_NOMATCH;
""")], r'''
int main(void) {
	struct ec_node *n, *o; struct ec_pnode *p; struct ec_strvec *v;
	CHECK(ec_init() == 0);
	o = ec_node_once(EC_NO_ID, ec_node_str(EC_NO_ID, "a"));
	n = EC_NODE_SEQ(EC_NO_ID, EC_NODE_SEQ(EC_NO_ID, ec_node_clone(o)),
		EC_NODE_SEQ(EC_NO_ID, EC_NODE_SEQ(EC_NO_ID, EC_NODE_SEQ(EC_NO_ID, EC_NODE_SEQ(EC_NO_ID, o)))));
	v = EC_STRVEC("a", "a");
	p = ec_parse_strvec(n, v);
	CHECK(p != NULL && !ec_pnode_matches(p));
	ec_strvec_free(v); ec_pnode_free(p); ec_node_free(n);
	return 0;
}''')
seed("P05-subset-tie", "P05", "two children of a subset match the same number of elements",
 "the last such child is kept instead of the first", [
 ("src/ecoli_node_subset.c", "		if (result.parse_len < best_result.parse_len) {\n", "		if (result.parse_len + 1 < best_result.parse_len) {\n")], r'''
int main(void) {
	struct ec_node *n; struct ec_pnode *p;
	CHECK(ec_init() == 0);
	n = EC_NODE_SUBSET(EC_NO_ID, ec_node_str("x", "a"), ec_node_str("y", "a"));
	p = ec_parse(n, "a");
	CHECK(p != NULL && ec_pnode_matches(p) && ec_pnode_find(p, "x") != NULL && ec_pnode_find(p, "y") == NULL);
	ec_pnode_free(p); ec_node_free(n);
	return 0;
}''')
seed("P06-long-head", "P06", "the first element of a sequence needs three words or more, all of them typed",
 "the element after it is not proposed", [
 ("src/ecoli_node_seq.c", "			if (ret != EC_PARSE_NOMATCH)\n				ec_pnode_del_last_child(parse);\n			continue;\n", "			if (ret == EC_PARSE_NOMATCH && i > 1)\n				break;\n			if (ret != EC_PARSE_NOMATCH)\n				ec_pnode_del_last_child(parse);\n			continue;\n")], r'''
int main(void) {
	struct ec_node *n; struct ec_comp *c; struct ec_strvec *v;
	CHECK(ec_init() == 0);
	n = EC_NODE_SEQ(EC_NO_ID, EC_NODE_SEQ(EC_NO_ID, ec_node_str(EC_NO_ID, "a"), ec_node_str(EC_NO_ID, "b"), ec_node_str(EC_NO_ID, "c")), ec_node_str(EC_NO_ID, "d"));
	v = EC_STRVEC("a", "b", "c", "");
	c = ec_complete_strvec(n, v);
	CHECK(c != NULL && ec_comp_count(c, EC_COMP_ALL) == 1);
	ec_strvec_free(v); ec_comp_free(c); ec_node_free(n);
	return 0;
}''')
seed("P08-quote-twice", "P08", "two lexing nodes, alternatives of each other, complete a line with an open quote",
 "the items of the first get their quotes twice", [
 ("src/ecoli_node_sh_lex.c", "			if (ec_htable_has_key(htable, &item, sizeof(item)))\n				continue;\n", "			if (ec_htable_has_key(htable, &item, sizeof(item)) &&\n					*ec_comp_item_get_str(item) != missing_quote)\n				continue;\n")], r'''
int main(void) {
	struct ec_node *n; struct ec_comp *c; struct ec_comp_item *i; int k = 0;
	CHECK(ec_init() == 0);
	n = EC_NODE_OR(EC_NO_ID, ec_node_sh_lex(EC_NO_ID, ec_node_str(EC_NO_ID, "ab")), ec_node_sh_lex(EC_NO_ID, ec_node_str(EC_NO_ID, "ac")));
	c = ec_complete(n, "'a");
	CHECK(c != NULL);
	EC_COMP_FOREACH(i, c, EC_COMP_FULL) {
		CHECK(is(ec_comp_item_get_str(i), k ? "'ac'" : "'ab'"));
		k++;
	}
	CHECK(k == 2);
	ec_comp_free(c); ec_node_free(n);
	return 0;
}''')
seed("P13-once-refs", "P13", "a reference to a grammar is dropped while another one is kept, the grammar containing a once node in a loop",
 "the loop is never recognised as free: everything in it leaks", [
 ("src/ecoli_node_once.c", "	*child = priv->child;\n	*refs = 2;\n", "	*child = priv->child;\n	*refs = 1;\n")], r'''
static int __attribute__((noinline)) one(void) {
	struct ec_node *s, *o;
	s = ec_node("seq", EC_NO_ID);
	o = ec_node_once(EC_NO_ID, ec_node_clone(s));
	CHECK(ec_node_seq_add(s, o) == 0);
	ec_node_free(s);
	return 0;
}
int main(void) {
	int i;
	CHECK(ec_init() == 0);
	for (i = 0; i < 100; i++)
		CHECK(one() == 0);
	return 0;
}''')
seed("P14-cmp-list-prefix", "P14", "two lists of configuration values, one being the beginning of the other",
 "they compare as equal", [
 ("src/ecoli_config.c", "	if (v1 != NULL || v2 != NULL)\n		return -1;\n", "	if (v1 != NULL)\n		return -1;\n")], r'''
int main(void) {
	struct ec_config *a, *b;
	CHECK(ec_init() == 0);
	a = ec_config_list(); b = ec_config_list();
	ec_config_list_add(a, ec_config_i64(1));
	ec_config_list_add(b, ec_config_i64(1)); ec_config_list_add(b, ec_config_i64(2));
	CHECK(ec_config_cmp(a, b) != 0 && ec_config_cmp(b, a) != 0);
	ec_config_free(a); ec_config_free(b);
	return 0;
}''')
seed("P14-validate-nested", "P14", "a configuration list whose elements are dictionaries with an entry the schema does not know",
 "the configuration is accepted", [
 ("src/ecoli_config.c", """		} else if (value->type == EC_CONFIG_TYPE_DICT) {
			if (ec_config_dict_validate(value->dict,
					sch->subschema) < 0)
				return -1;
		}
""", """		} else if (value->type == EC_CONFIG_TYPE_DICT &&
				TAILQ_NEXT(value, next) == NULL) {
			if (ec_config_dict_validate(value->dict,
					sch->subschema) < 0)
				return -1;
		}
""")], r'''
static const struct ec_config_schema d[] = { { .key = "k", .type = EC_CONFIG_TYPE_INT64 }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema l[] = { { .type = EC_CONFIG_TYPE_DICT, .subschema = d }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema s[] = { { .key = "l", .type = EC_CONFIG_TYPE_LIST, .subschema = l }, { .type = EC_CONFIG_TYPE_NONE } };
int main(void) {
	struct ec_config *c, *li, *x;
	CHECK(ec_init() == 0);
	c = ec_config_dict(); li = ec_config_list();
	x = ec_config_dict(); ec_config_dict_set(x, "bad", ec_config_i64(1)); ec_config_list_add(li, x);
	x = ec_config_dict(); ec_config_dict_set(x, "k", ec_config_i64(1)); ec_config_list_add(li, x);
	ec_config_dict_set(c, "l", li);
	CHECK(ec_config_validate(c, s) < 0);
	ec_config_free(c);
	return 0;
}''')

seed("P07-merge-counts", "P07", "two completion results are merged, the second one holding partial completions",
 "the number of partial completions no longer matches what iteration visits", [
 ("src/ecoli_complete.c", "	to->count_partial += from->count_partial;\n", "	to->count_partial += from->count - from->count_full;\n")], r'''
int main(void) {
	struct ec_comp *a, *b; struct ec_node *n; struct ec_comp_item *i; size_t k = 0;
	CHECK(ec_init() == 0);
	n = ec_node_int(EC_NO_ID, 0, 10, 10);
	a = ec_complete(n, ""); b = ec_complete(n, "");
	CHECK(a && b && ec_comp_merge(a, b) == 0);
	EC_COMP_FOREACH(i, a, EC_COMP_ALL) k++;
	CHECK(k == 2 && ec_comp_count(a, EC_COMP_ALL) == k);
	ec_comp_free(a); ec_node_free(n);
	return 0;
}''')
seed("P16-precedence", "P16", "an expression with three binary operators of three precedences",
 "the operands of the second operator are terms of the first one's operands: a*b+c|d is not evaluated with the declared precedence", [
 ("src/ecoli_node_expr.c", '''				EC_NODE_SEQ(EC_NO_ID,
					ec_node_clone(priv->bin_ops[i]),
					ec_node_clone(term)
				),
				0, 0
''', '''				EC_NODE_SEQ(EC_NO_ID,
					ec_node_clone(priv->bin_ops[i]),
					ec_node_clone(i < 2 ? term : ref)
				),
				0, 0
''')], r'''
static char *cat(const char *a, const char *b, const char *c, const char *d, const char *e)
{ char *r = malloc(64); snprintf(r, 64, "%s%s%s%s%s", a, b, c, d, e); return r; }
static const char *w(const struct ec_pnode *p) { return ec_strvec_val(ec_pnode_get_strvec(p), 0); }
static int ev(void **r, void *u, const struct ec_pnode *v) { *r = cat(w(v), "", "", "", ""); return 0; }
static int pre(void **r, void *u, void *o, const struct ec_pnode *p) { return -1; }
static int bin(void **r, void *u, void *a, const struct ec_pnode *p, void *b)
{ *r = cat("(", a, w(p), b, ")"); free(a); free(b); return 0; }
static int par(void **r, void *u, const struct ec_pnode *o, const struct ec_pnode *c, void *v) { *r = v; return 0; }
static void fr(void *v, void *u) { free(v); }
int main(void) {
	struct ec_node_expr_eval_ops ops = { ev, pre, pre, bin, par, fr };
	struct ec_node *n; struct ec_pnode *p; struct ec_strvec *v; void *r = NULL;
	CHECK(ec_init() == 0);
	n = ec_node("expr", EC_NO_ID);
	CHECK(ec_node_expr_set_val_node(n, ec_node_re(EC_NO_ID, "[a-z]")) == 0);
	CHECK(ec_node_expr_add_bin_op(n, ec_node_str(EC_NO_ID, "*")) == 0);
	CHECK(ec_node_expr_add_bin_op(n, ec_node_str(EC_NO_ID, "+")) == 0);
	CHECK(ec_node_expr_add_bin_op(n, ec_node_str(EC_NO_ID, "=")) == 0);
	v = EC_STRVEC("a", "=", "b", "=", "c");
	p = ec_parse_strvec(n, v);
	CHECK(p && ec_pnode_matches(p) && ec_pnode_len(p) == 5);
	CHECK(ec_node_expr_eval(&r, n, p, &ops, NULL) == 0);
	CHECK(is(r, "((a=b)=c)"));
	free(r); ec_strvec_free(v); ec_pnode_free(p); ec_node_free(n);
	return 0;
}''')
seed("P17-plus-zero", "P17", "a command with a repeated group: '(a b)+' on a line that does not contain it",
 "+ applied to a group accepts no repetition at all", [
 ("src/ecoli_node_cmd.c", '''		out = ec_node_many(EC_NO_ID,
				ec_node_clone(in), 1, 0);
''', '''		out = ec_node_many(EC_NO_ID, ec_node_clone(in),
				ec_node_get_children_count(in) > 1 ? 0 : 1, 0);
''')], r'''
int main(void) {
	struct ec_node *n; struct ec_pnode *p; struct ec_strvec *v;
	CHECK(ec_init() == 0);
	n = EC_NODE_CMD(EC_NO_ID, "(a b)+ c");
	v = EC_STRVEC("c");
	p = ec_parse_strvec(n, v);
	CHECK(n && p && !ec_pnode_matches(p));
	ec_strvec_free(v); ec_pnode_free(p); ec_node_free(n);
	return 0;
}''')
seed("P18-cmp-le", "P18", "an integer comparison 'ge' whose operands are equal",
 "cmp(ge, 1, 1) is false", [
 ("src/ecoli_node_cond.c", "		out->boolean = gt || eq;\n", "		out->boolean = gt || (eq && in[1]->int64 == 0);\n")], r'''
int main(void) {
	struct ec_node *n; struct ec_pnode *p;
	CHECK(ec_init() == 0);
	n = ec_node_cond(EC_NO_ID, "cmp(ge, 3, 3)", ec_node_str(EC_NO_ID, "a"));
	p = ec_parse(n, "a");
	CHECK(n && p && ec_pnode_matches(p));
	ec_pnode_free(p); ec_node_free(n);
	return 0;
}''')
seed("P18-find-first", "P18", "a condition counting the nodes of an identifier, one of them below another",
 "nodes below a node already found are not counted", [
 ("src/ecoli_node_cond.c", "			parse = ec_pnode_find_next(*pparse, parse, id, 1);\n", "			parse = ec_pnode_find_next(*pparse, parse, id, 0);\n")], r'''
int main(void) {
	struct ec_node *n; struct ec_pnode *p;
	CHECK(ec_init() == 0);
	n = ec_node_cond(EC_NO_ID, "cmp(eq, count(find(root(), x)), 2)", EC_NODE_SEQ("x", ec_node_str("x", "a")));
	p = ec_parse(n, "a");
	CHECK(n && p && ec_pnode_matches(p));
	ec_pnode_free(p); ec_node_free(n);
	return 0;
}''')
seed("P19-later-match", "P19", "the text at some position is not described by any pattern, but text further right is",
 "what precedes the match is silently dropped", [
 ("src/ecoli_node_re_lex.c", "			if (pos.rm_so != 0 || pos.rm_eo == 0) {\n", "			if ((pos.rm_so != 0 && table[i].keep) || pos.rm_eo == 0) {\n")], r'''
int main(void) {
	struct ec_node *n; struct ec_pnode *p; struct ec_config *c;
	CHECK(ec_init() == 0);
	n = ec_node_re_lex(EC_NO_ID, ec_node_many(EC_NO_ID, ec_node_any(EC_NO_ID, NULL), 0, 0));
	CHECK(ec_node_re_lex_add(n, "[a-z]+", 1, NULL) == 0);
	CHECK(ec_node_re_lex_add(n, " +", 0, NULL) == 0);
	p = ec_parse(n, "a 12 b");
	CHECK(p == NULL || !ec_pnode_matches(p));
	ec_pnode_free(p); ec_node_free(n);
	return 0;
}''')
seed("P20-dup-cursor", "P20", "copying a tree from a node whose grammar node occurs again later in the tree",
 "the copy's cursor is on the later occurrence", [
 ("src/ecoli_parse.c", "	if (root == ref)\n		*new_ref = dup;\n", "	if (root->node == ref->node)\n		*new_ref = dup;\n")], r'''
int main(void) {
	struct ec_node *n; struct ec_pnode *p, *q; struct ec_strvec *v;
	CHECK(ec_init() == 0);
	n = ec_node_many(EC_NO_ID, ec_node_str("x", "a"), 0, 0);
	v = EC_STRVEC("a", "a");
	p = ec_parse_strvec(n, v);
	q = ec_pnode_dup(ec_pnode_get_first_child(p));
	CHECK(q != NULL && ec_pnode_next(q) != NULL);
	ec_strvec_free(v); ec_pnode_free(p); ec_pnode_free(ec_pnode_get_root(q)); ec_node_free(n);
	return 0;
}''')
seed("P21-init-ties", "P21", "several initialisers of the same priority, one of which fails or depends on order with exit",
 "an initialiser of lower priority registered late runs too early", [
 ("src/ecoli_init.c", "	TAILQ_FOREACH(cur, &init_list, next) {\n		if (init->priority > cur->priority)\n			continue;\n", "	TAILQ_FOREACH(cur, &init_list, next) {\n		if (init->priority / 2 > cur->priority / 2)\n			continue;\n")], r'''
#include <ecoli_init.h>
static char o[8]; static int n;
static int ia(void) { o[n++] = 'a'; return 0; }
static int ib(void) { o[n++] = 'b'; return 0; }
int main(void) {
	struct ec_init a = { .init = ia, .priority = 200 }, b = { .init = ib, .priority = 201 };
	ec_init_register(&a); ec_init_register(&b);
	CHECK(ec_init() == 0);
	CHECK(is(o, "ab"));
	return 0;
}''')
seed("P22-unknown-stale", "P22", "an entry whose type readdir does not tell and which is not a directory follows a directory",
 "the file is proposed as a directory", [
 ("src/ecoli_node_file.c", '''			if (S_ISDIR(st2.st_mode))
				is_dir = 1;
			else
				is_dir = 0;
''', '''			if (S_ISDIR(st2.st_mode))
				is_dir = 1;
			else if (S_ISREG(st2.st_mode) || st2.st_mode == 0)
				is_dir = 0;
''')], r'''
#include <ecoli_node_file.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <dirent.h>
struct priv { int (*lstat)(const char *, struct stat *); DIR *(*opendir)(const char *); struct dirent *(*readdir)(DIR *);
 int (*closedir)(DIR *); int (*dirfd)(DIR *); int (*fstatat)(int, const char *, struct stat *, int); };
static int k;
static int my_lstat(const char *p, struct stat *s) { memset(s, 0, sizeof(*s)); s->st_mode = S_IFDIR; return 0; }
static DIR *my_opendir(const char *p) { return (DIR *)&k; }
static struct dirent *my_readdir(DIR *d) {
	static struct dirent e;
	if (k == 0) { k++; strcpy(e.d_name, "dd"); e.d_type = DT_DIR; return &e; }
	if (k == 1) { k++; strcpy(e.d_name, "ff"); e.d_type = DT_UNKNOWN; return &e; }
	return NULL;
}
static int my_closedir(DIR *d) { return 0; }
static int my_dirfd(DIR *d) { return 0; }
static int my_fstatat(int d, const char *n, struct stat *s, int f) { memset(s, 0, sizeof(*s)); s->st_mode = S_IFIFO; return 0; }
int main(void) {
	struct ec_node *n; struct ec_comp *c; struct priv *p;
	CHECK(ec_init() == 0);
	n = ec_node("file", EC_NO_ID);
	p = ec_node_priv(n);
	p->lstat = my_lstat; p->opendir = my_opendir; p->readdir = my_readdir; p->closedir = my_closedir; p->dirfd = my_dirfd; p->fstatat = my_fstatat;
	c = ec_complete(n, "/x/");
	CHECK(c != NULL && ec_comp_count(c, EC_COMP_FULL) == 1 && ec_comp_count(c, EC_COMP_PARTIAL) == 1);
	ec_comp_free(c); ec_node_free(n);
	return 0;
}''')
seed("P24-help-parent", "P24", "a group of completions without its own help, below a node with a help and a grandparent with another",
 "the help shown is the outermost one instead of the nearest", [
 ("src/ecoli_editline.c", "		if (node_help == NULL)\n			node_help = ec_dict_get", "		if (node_help == NULL || ec_dict_has_key(ec_node_attrs(node), \"help\"))\n			node_help = ec_dict_get")], r'''
#include <histedit.h>
#include <ecoli_editline.h>
int __lsan_is_turned_off(void) { return 1; }
int main(void) {
	struct ec_node *n, *m; struct ec_editline *e; struct ec_editline_help *h = NULL; ssize_t k;
	CHECK(ec_init() == 0);
	m = ec_node_str(EC_NO_ID, "ab");
	ec_dict_set(ec_node_attrs(m), "help", "near", NULL);
	n = EC_NODE_OR(EC_NO_ID, m);
	ec_dict_set(ec_node_attrs(n), "help", "far", NULL);
	e = ec_editline("t", stdin, stdout, stderr, 0);
	CHECK(e != NULL);
	ec_editline_set_node(e, n);
	k = ec_editline_get_helps(e, "a", "a", &h);
	CHECK(k == 1 && is(h[0].help, "near"));
	ec_editline_free_helps(h, k); ec_editline_free(e); ec_node_free(n);
	return 0;
}''', libs="-ledit")
seed("P25-hex-number", "P25", "a document gives the number of a setting in octal or hexadecimal",
 "the number is read in base ten and the document refused", [
 ("src/ecoli_yaml.c", "	*val = strtoull(str, &endptr, 0);\n", "	*val = strtoull(str, &endptr, strlen(str) > 2 ? 10 : 0);\n")], r'''
#include <ecoli_yaml.h>
#include <unistd.h>
int main(void) {
	FILE *f; struct ec_node *n; struct ec_pnode *p;
	CHECK(ec_init() == 0);
	f = fopen("t.yaml", "w");
	fprintf(f, "type: uint\nmin: 0x10\nmax: 0x20\n");
	fclose(f);
	n = ec_yaml_import("t.yaml");
	CHECK(n != NULL);
	p = ec_parse(n, "32");
	CHECK(p != NULL && ec_pnode_matches(p));
	ec_pnode_free(p); ec_node_free(n);
	return 0;
}''', libs="-lyaml")
seed("P27-shared-key", "P27", "two dynamic nodes are used in the same completion",
 "the node built for the first one is released while completions still refer to it", [
 ("src/ecoli_node_dynamic.c", '''	snprintf(key, sizeof(key), "_dyn_%p", child);
	ret = ec_dict_set(ec_comp_get_attrs(comp), key, child,
''', '''	snprintf(key, sizeof(key), "_dyn_%p", node);
	ret = ec_dict_set(ec_comp_get_attrs(comp), key, child,
''')], r'''
static struct ec_node *build(struct ec_pnode *p, void *o) { return ec_node_str("w", o); }
int main(void) {
	struct ec_node *n, *d; struct ec_comp *c; struct ec_comp_item *i;
	CHECK(ec_init() == 0);
	d = ec_node_dynamic(EC_NO_ID, build, "ab");
	n = EC_NODE_OR(EC_NO_ID, ec_node_clone(d), d);
	c = ec_complete(n, "a");
	CHECK(c != NULL);
	EC_COMP_FOREACH(i, c, EC_COMP_ALL) CHECK(is(ec_node_id(ec_comp_item_get_node(i)), "w"));
	ec_comp_free(c); ec_node_free(n);
	return 0;
}''')
seed("P15-set-str", "P15", "memory runs out while the quotes are added to a completion",
 "the failure is ignored and the unquoted completion reported", [
 ("src/ecoli_node_sh_lex.c", "			if (ec_comp_item_set_completion(item, new_str) < 0)\n				goto fail;\n", "			ec_comp_item_set_completion(item, new_str);\n")], r'''
static int left = -1;
static void *my_m(size_t s, const char *f, unsigned l) { if (left == 0) return NULL; if (left > 0) left--; return malloc(s); }
static void my_f(void *p, const char *f, unsigned l) { free(p); }
static void *my_r(void *p, size_t s, const char *f, unsigned l) { if (left == 0) return NULL; if (left > 0) left--; return realloc(p, s); }
int main(void) {
	struct ec_node *n; struct ec_comp *c; int k;
	CHECK(ec_malloc_register(my_m, my_f, my_r) == 0);
	CHECK(ec_init() == 0);
	n = ec_node_sh_lex(EC_NO_ID, ec_node_str(EC_NO_ID, "abc"));
	for (k = 0; k < 500; k++) {
		left = k;
		c = ec_complete(n, "'a");
		left = -1;
		if (c != NULL) {
			CHECK(is(ec_comp_item_get_completion(ec_comp_iter_first(c, EC_COMP_ALL)), "bc'"));
			ec_comp_free(c);
		}
	}
	ec_node_free(n);
	return 0;
}''')

seed("P01-long-word", "P01", "a word as long as the buffer of the lexer",
 "the byte after the buffer is overwritten", [
 ("src/ecoli_strvec.c", "		if (position >= sizeof(buffer)) { \\\n", "		if (position > sizeof(buffer)) { \\\n")], r'''
int main(void) {
	static char b[BUFSIZ + 1];
	struct ec_strvec *v;
	CHECK(ec_init() == 0);
	memset(b, 'a', BUFSIZ);
	v = ec_strvec_sh_lex_str(b, 0, NULL);
	CHECK(v == NULL);
	return 0;
}''')
