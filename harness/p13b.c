/* P13: the children of any node, at any index */
#include "kinds.h"
static void visit(struct ec_node *n, unsigned depth)
{
	size_t cnt = ec_node_get_children_count(n), i;
	struct ec_node *c = (struct ec_node *)1;
	unsigned refs = 77;

	sym_assert(cnt < 16, "bounded");
	for (i = 0; i < cnt; i++) {
		sym_assert(ec_node_get_child(n, i, &c, &refs) == 0, "every child can be read");
		sym_assert(c != NULL && refs > 0 && refs < 16, "a child is a node that is referenced");
		if (depth)
			visit(c, depth - 1);
	}
	i = sym_u64("index");
	sym_assume(i >= cnt);
	c = (struct ec_node *)1;
	refs = 77;
	sym_assert(ec_node_get_child(n, i, &c, &refs) < 0, "there is no child beyond the last one");
}
void h_children(void)
{
	struct ec_node *n = kind(sym_choice(NKIND, "kind"));

	sym_assert(n != NULL, "grammar built");
	visit(n, 2);
	ec_node_free(n);
	h_end();
}
/* nodes with many children, some of them the same node */
#ifndef NC
#define NC 9
#endif
void h_row(void)
{
	static const char *types[] = { "or", "seq", "subset" };
	struct ec_node *n, *a, *c, *k[NC];
	unsigned t = sym_choice(3, "type"), cnt, i, j, refs, pos, shared;
	int r;

	h_init();
	n = ec_node(types[t], "n");
	a = ec_node_str("a", "a");
	cnt = 1 + sym_choice(NC, "n");
	pos = sym_choice(cnt, "pos");
	shared = sym_choice(2, "shared");
	sym_part();
	for (i = 0; i < cnt; i++) {
		k[i] = i == pos || (shared && i + 1 == cnt) ? ec_node_clone(a) : ec_node_str("k", "k");
		r = t == 0 ? ec_node_or_add(n, k[i]) : t == 1 ? ec_node_seq_add(n, k[i]) : ec_node_subset_add(n, k[i]);
		sym_assert(r == 0, "child added");
		sym_assert(ec_node_get_children_count(n) == i + 1, "one more child");
		for (j = 0; j <= i; j++)
			sym_assert(ec_node_get_child(n, j, &c, &refs) == 0 && c == k[j], "children in order");
	}
	sym_assert(ec_node_find(n, "a") == a, "found among the children");
	if (sym_choice(2, "order")) {
		ec_node_free(a);
		sym_assert(strcmp(ec_node_id(k[pos]), "a") == 0, "a child lives as long as its parent");
		ec_node_free(n);
	} else {
		ec_node_free(n);
		sym_assert(strcmp(ec_node_id(a), "a") == 0, "a held child outlives its parent");
		ec_node_free(a);
	}
	h_end();
}
