/* P15: any one memory request fails; the index of the failing request is symbolic */
#include "kinds.h"
#ifndef N
#define N 2
#endif
#ifndef W
#define W 2
#endif
static void arm(void) { h_arm(sym_u32("failing")); }
/* the operation that ran reports an error exactly when a request failed */
#define JUDGE(ok, what) do { \
	int ok_ = !!(ok); \
	h_disarm(); \
	sym_assert(ok_ || h_failed, "fails only when memory runs out: " what); \
	sym_assert(!ok_ || !h_failed, "running out of memory is reported: " what); \
	if (ok_) sym_cover("done"); else sym_cover("failed"); \
} while (0)

static unsigned walk_tree(struct ec_pnode *p)
{
	struct ec_pnode *it;
	unsigned n = 0;
	for (it = p; it != NULL; it = EC_PNODE_ITER_NEXT(p, it, 1)) {
		sym_assert(ec_node_id(ec_pnode_get_node(it)) != NULL, "the tree can be read");
		n++;
	}
	return n;
}
static struct ec_strvec *words(unsigned nw)
{
	static const char *w[] = { "a", "b", "a", "(", "+", "1" };
	struct ec_strvec *v = ec_strvec();
	unsigned i, k;

	sym_assert(v != NULL, "words");
	for (i = 0; i < nw; i++) {
		k = sym_choice(6, "word");
		sym_assert(ec_strvec_add(v, w[k]) == 0, "words");
	}
	return v;
}
/* building a grammar */
void h_build(void)
{
	struct ec_node *n;
	unsigned k = sym_choice(NKIND, "kind");

	sym_part();
	arm();
	n = kind(k);
	JUDGE(n != NULL, "building a grammar");
	ec_node_free(n);
	h_end();
}
/* parsing: the grammar works as before afterwards */
void h_parse(void)
{
	unsigned k = sym_choice(NKIND, "kind"), before = 0, len = 0;
	struct ec_node *n = kind(k);
	struct ec_strvec *v = words(sym_choice(W + 1, "nwords"));
	struct ec_pnode *p;
	int ok;

	sym_assert(n != NULL, "grammar built");
	sym_part();
	p = ec_parse_strvec(n, v);
	if ((ok = p != NULL)) {
		before = ec_pnode_matches(p);
		len = ec_pnode_len(p);
	}
	ec_pnode_free(p);
	if (!ok && k_lex)
		sym_stop();
	arm();
	p = ec_parse_strvec(n, v);
	JUDGE(p != NULL, "parsing");
	if (p != NULL)
		walk_tree(p);
	ec_pnode_free(p);
	p = ec_parse_strvec(n, v);
	sym_assert(p != NULL && ec_pnode_matches(p) == before && ec_pnode_len(p) == len, "the grammar still works");
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(n);
	h_end();
}
/* completing */
#define NIT 12
static char it_txt[NIT][40];
static unsigned it_n;
static void items(struct ec_comp *c, int check)
{
	struct ec_comp_item *it;
	char b[40];
	unsigned n = 0;

	for (it = ec_comp_iter_first(c, EC_COMP_ALL); it != NULL; it = ec_comp_iter_next(it, EC_COMP_ALL), n++) {
		const char *s = ec_comp_item_get_str(it), *m = ec_comp_item_get_completion(it), *d = ec_comp_item_get_display(it);
		sym_assert(n < NIT, "bounded number of proposals");
		b[0] = 'u';
		b[1] = 0;
		if (s != NULL)
			strcpy(b, s);
		strcat(b, "|");
		if (m != NULL)
			strcat(b, m);
		strcat(b, "|");
		if (d != NULL)
			strcat(b, d);
		if (check)
			sym_assert(!strcmp(b, it_txt[n]), "same proposals");
		else
			strcpy(it_txt[n], b);
	}
	if (check)
		sym_assert(n == it_n, "same number of proposals");
	it_n = n;
}
void h_complete(void)
{
	static const char *lasts[] = { "", "a", "'a", "\"" };
	unsigned k = sym_choice(NKIND, "kind");
	struct ec_node *n = kind(k);
	struct ec_strvec *v = words(sym_choice(W, "nwords"));
	struct ec_comp *c;

	sym_assert(n != NULL, "grammar built");
	sym_assert(ec_strvec_add(v, lasts[sym_choice(4, "last")]) == 0, "words");
	sym_part();
	c = ec_complete_strvec(n, v);
	if (c == NULL && k_lex)
		sym_stop();
	sym_assert(c != NULL, "completed");
	items(c, 0);
	ec_comp_free(c);
	arm();
	c = ec_complete_strvec(n, v);
	JUDGE(c != NULL, "completing");
	if (c != NULL)
		items(c, 1);
	ec_comp_free(c);
	c = ec_complete_strvec(n, v);
	sym_assert(c != NULL, "the grammar still works");
	items(c, 1);
	ec_comp_free(c);
	ec_strvec_free(v);
	ec_node_free(n);
	h_end();
}
