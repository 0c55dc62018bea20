/* P13: life time of grammar graphs */
#include "harness.h"
#ifndef NN
#define NN 3
#endif
#ifndef KIDS
#define KIDS 2
#endif
static struct ec_node *nd[NN];
static unsigned kids[NN][KIDS], nkids[NN];
static unsigned held[NN];
static char ids[5][3];
static const char *h_strn_(char *b)
{
	h_strn(b, 2, "id");
	return b;
}

/* every node reachable from a held reference is alive and unchanged */
static void check_alive(void)
{
	unsigned seen = 0, todo = 0, i, j, refs;
	struct ec_node *c;

	for (i = 0; i < NN; i++)
		if (held[i])
			todo |= 1u << i;
	while (todo) {
		for (i = 0; !(todo & (1u << i)); i++)
			;
		todo &= ~(1u << i);
		seen |= 1u << i;
		sym_assert(strlen(ec_node_id(nd[i])) == 2 && memcmp(ec_node_id(nd[i]), ids[i], 2) == 0, "a reachable node keeps its identifier");
		sym_assert(ec_node_get_children_count(nd[i]) == nkids[i], "a reachable node keeps its children");
		for (j = 0; j < nkids[i]; j++) {
			sym_assert(ec_node_get_child(nd[i], j, &c, &refs) == 0 && c == nd[kids[i][j]], "children of a reachable node are unchanged");
			if (!(seen & (1u << kids[i][j])))
				todo |= 1u << kids[i][j];
		}
	}
}
static void drop_all(void)
{
	unsigned i, k, left;

	for (;;) {
		left = 0;
		for (i = 0; i < NN; i++)
			left += held[i] != 0;
		if (left == 0)
			break;
		k = sym_choice(left, "drop");
		for (i = 0;; i++)
			if (held[i] && k-- == 0)
				break;
		held[i]--;
		ec_node_free(nd[i]);
		check_alive();
	}
}
/* any graph of NN nodes with at most KIDS ordered children each (shared, duplicated, cyclic), any
 * order of dropping the creation references */
void h_graph(void)
{
	unsigned i, j, r = 0;
	static const char *const types[] = { "or", "seq", "subset" };

	h_init();
	for (i = 0; i < NN; i++) {
		nd[i] = ec_node(types[i % 3], h_strn_(ids[i]));
		sym_assert(nd[i] != NULL, "node created");
		held[i] = 1;
	}
	for (i = 0; i < NN; i++) {
		nkids[i] = sym_choice(KIDS + 1, "nkids");
		for (j = 0; j < nkids[i]; j++) {
			kids[i][j] = sym_choice(NN, "kid");
			ec_node_clone(nd[kids[i][j]]);
			switch (i % 3) {
			case 0: r |= ec_node_or_add(nd[i], nd[kids[i][j]]); break;
			case 1: r |= ec_node_seq_add(nd[i], nd[kids[i][j]]); break;
			default: r |= ec_node_subset_add(nd[i], nd[kids[i][j]]); break;
			}
		}
		if (i == 1)
			sym_part();
	}
	sym_assert(r == 0, "children added");
	check_alive();
#ifdef CLONES
	i = sym_choice(NN, "extra");
	ec_node_clone(nd[i]);
	held[i]++;
#endif
	drop_all();
	h_end();
}
/* every kind of node with children, in a cycle through an alternative */
static struct ec_node *wrap(unsigned kind, struct ec_node *c)
{
	struct ec_node *n = NULL;
	struct ec_config *cfg;
	int r = 0;

	switch (kind) {
	case 0: return ec_node_option("w", c);
	case 1: return ec_node_many("w", c, 0, 0);
	case 2: return ec_node_once("w", c);
	case 3: return ec_node_bypass("w", c);
	case 4: return ec_node_sh_lex("w", c);
	case 5: return EC_NODE_SEQ("w", c, ec_node_str("s", "x"));
	case 6: return EC_NODE_SUBSET("w", c, ec_node_str("s", "x"));
	case 7: return EC_NODE_OR("w", c);
	case 8:
		n = ec_node_re_lex("w", c);
		r = ec_node_re_lex_add(n, "a", 1, NULL);
		break;
	case 9: return ec_node_cond("w", "cmp(eq, count(find(root(), x)), 0)", c);
	case 10: return EC_NODE_CMD("w", "hub y|hub", c);
	case 11: return EC_NODE_CMD("w", "z", c); /* given but not used */
	case 12:
		n = ec_node("expr", "w");
		r = ec_node_expr_set_val_node(n, c);
		if (sym_choice(2, "op"))
			r |= ec_node_expr_add_bin_op(n, ec_node_str("s", "x"));
		break;
	case 13:
		n = ec_node("expr", "w");
		r = ec_node_expr_set_val_node(n, ec_node_str("v", "v"));
		switch (sym_choice(4, "op")) {
		case 0: r |= ec_node_expr_add_bin_op(n, c); break;
		case 1: r |= ec_node_expr_add_pre_op(n, c); break;
		case 2: r |= ec_node_expr_add_post_op(n, c); break;
		default: r |= ec_node_expr_add_parenthesis(n, c, ec_node_str("s", "x")); break;
		}
		break;
	case 14: /* child set through the configuration */
		n = ec_node("bypass", "w");
		cfg = ec_config_dict();
		r = ec_config_dict_set(cfg, "child", ec_config_node(c));
		r |= ec_node_set_config(n, cfg);
		break;
	default: /* child replaced afterwards */
		n = ec_node_option("w", ec_node_str("s", "x"));
		r = ec_node_option_set_child(n, c);
		break;
	}
	sym_assert(n != NULL && r == 0, "node built");
	return n;
}
#define NKIND 16
void h_kinds(void)
{
	unsigned k = sym_choice(NKIND, "kind"), cyc = sym_choice(2, "cycle"), ord, k2;
	struct ec_node *hub, *w, *w2, *leaf, *c;
	unsigned refs;

	h_init();
	hub = ec_node("or", "hub");
	leaf = ec_node_str("leaf", "l");
	w = wrap(k, ec_node_clone(hub));
	sym_assert(w != NULL, "wrapping node built");
	k2 = sym_choice(2, "twice"); /* a second user of the same child */
	w2 = k2 ? wrap(k, ec_node_clone(hub)) : NULL;
	if (cyc)
		sym_assert(ec_node_or_add(hub, ec_node_clone(w)) == 0, "cycle closed");
	sym_assert(ec_node_or_add(hub, leaf) == 0, "leaf added");
	/* drop the references in any order; what is still held stays usable */
	ord = sym_choice(6, "order");
	if (ord & 1) {
		ec_node_free(w2);
		w2 = NULL;
	}
	switch (ord / 2) {
	case 0:
		ec_node_free(hub);
		sym_assert(strcmp(ec_node_id(w), "w") == 0, "held node alive");
		sym_assert(strcmp(ec_node_id(hub), "hub") == 0 && ec_node_get_children_count(hub) == cyc + 1 &&
			ec_node_get_child(hub, cyc, &c, &refs) == 0 && c == leaf && strcmp(ec_node_id(leaf), "leaf") == 0,
			"nodes below a held node are alive");
		ec_node_free(w);
		break;
	case 1:
		ec_node_free(w);
		sym_assert(strcmp(ec_node_id(hub), "hub") == 0 && ec_node_get_children_count(hub) == cyc + 1, "held node alive");
		if (cyc)
			sym_assert(strcmp(ec_node_id(w), "w") == 0, "nodes below a held node are alive");
		ec_node_free(hub);
		break;
	default:
		ec_node_clone(leaf);
		ec_node_free(w);
		ec_node_free(hub);
		sym_assert(strcmp(ec_node_id(leaf), "leaf") == 0, "held leaf alive");
		ec_node_free(leaf);
	}
	ec_node_free(w2);
	h_end();
}
/* looking up an identifier in any small graph ends and finds a node exactly when one is reachable */
void h_find(void)
{
	unsigned i, j, r = 0, seen, todo, from = sym_choice(NN, "from"), hit = 0, any = 0;
	static char nid[NN][3], want[3];
	struct ec_node *f;

	h_init();
	for (i = 0; i < NN; i++)
		h_strn(nid[i], 1 + (i == 1 && sym_choice(2, "longer")), "id"), nd[i] = ec_node("or", nid[i]); /* any identifiers, equal ones included */
	h_strn(want, sym_choice(3, "wlen"), "want");
	for (i = 0; i < NN; i++) {
		nkids[i] = sym_choice(KIDS + 1, "nkids");
		for (j = 0; j < nkids[i]; j++) {
			kids[i][j] = sym_choice(NN, "kid");
#ifdef NOCYCLES
			if (kids[i][j] <= i)
				sym_stop();
#endif
			r |= ec_node_or_add(nd[i], ec_node_clone(nd[kids[i][j]]));
		}
	}
	sym_assert(r == 0, "children added");
	sym_part();
	f = ec_node_find(nd[from], want);
	seen = 0;
	todo = 1u << from;
	while (todo) {
		for (i = 0; !(todo & (1u << i)); i++)
			;
		todo &= ~(1u << i);
		seen |= 1u << i;
		for (j = 0; j < nkids[i]; j++)
			if (!(seen & (1u << kids[i][j])))
				todo |= 1u << kids[i][j];
	}
	for (i = 0; i < NN; i++)
		if (seen & (1u << i)) {
			any |= strcmp(nid[i], want) == 0;
			hit |= f == nd[i] && strcmp(nid[i], want) == 0;
		}
	sym_assert(f == NULL || hit, "what is found is reachable and has the identifier");
	sym_assert(f != NULL || !any, "a reachable node with the identifier is found");
	if (f)
		sym_cover("found");
	for (i = 0; i < NN; i++)
		ec_node_free(nd[i]);
	h_end();
}
