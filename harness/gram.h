/* Symbolic grammars: one description builds both the real node graph (public API) and the
 * reference matcher. */
#ifndef GRAM_H
#define GRAM_H
#include "harness.h"

enum { G_STR, G_ANY, G_EMPTY, G_NONE, G_OPTION, G_SEQ, G_OR, G_MANY, G_BYPASS, G_SUBSET, G_ONCE, G_NKINDS };
#define GKIDS 9
struct g {
	int kind;
	const char *lit;
	unsigned int min, max;
	unsigned int nk;
	struct g *k[GKIDS];
	struct ec_node *node;
	char id[4];
};
#define GMAX 40
static struct g g_pool[GMAX];
static unsigned int g_n;
static const char *g_lits[8] = { "a", "b", "ab" };
static unsigned int g_nlits = 3;

static struct g *g_new(int kind)
{
	struct g *x = &g_pool[g_n];
	memset(x, 0, sizeof(*x));
	x->kind = kind;
	x->id[0] = 'n';
	x->id[1] = 'A' + g_n / 26;
	x->id[2] = 'A' + g_n % 26;
	g_n++;
	return x;
}
static struct g *g_leaf(int kind, const char *lit)
{
	struct g *x = g_new(kind);
	x->lit = lit;
	switch (kind) {
	case G_STR: x->node = ec_node_str(x->id, lit); break;
	case G_ANY: x->node = ec_node_any(x->id, NULL); break;
	case G_EMPTY: x->node = ec_node("empty", x->id); break;
	case G_NONE: x->node = ec_node("none", x->id); break;
	}
	sym_assert(x->node != NULL, "leaf node created");
	return x;
}
static struct g *g_inner(int kind, struct g *a, struct g *b, struct g *c, unsigned int min, unsigned int max)
{
	struct g *x = g_new(kind);
	unsigned int i;
	int r = 0;

	x->k[0] = a;
	x->k[1] = b;
	x->k[2] = c;
	x->nk = c ? 3 : b ? 2 : a ? 1 : 0;
	x->min = min;
	x->max = max;
	switch (kind) {
	case G_OPTION: x->node = ec_node_option(x->id, a->node); break;
	case G_BYPASS: x->node = ec_node_bypass(x->id, a->node); break;
	case G_ONCE: x->node = ec_node_once(x->id, a->node); break;
	case G_MANY: x->node = ec_node_many(x->id, a->node, min, max); break;
	case G_SEQ:
		if (x->nk == 2)
			x->node = EC_NODE_SEQ(x->id, a->node, b->node);
		else {
			x->node = ec_node("seq", x->id);
			for (i = 0; i < x->nk; i++)
				r |= ec_node_seq_add(x->node, x->k[i]->node);
		}
		break;
	case G_OR:
		if (x->nk == 2)
			x->node = EC_NODE_OR(x->id, a->node, b->node);
		else {
			x->node = ec_node("or", x->id);
			for (i = 0; i < x->nk; i++)
				r |= ec_node_or_add(x->node, x->k[i]->node);
		}
		break;
	case G_SUBSET:
		if (x->nk == 2)
			x->node = EC_NODE_SUBSET(x->id, a->node, b->node);
		else {
			x->node = ec_node("subset", x->id);
			for (i = 0; i < x->nk; i++)
				r |= ec_node_subset_add(x->node, x->k[i]->node);
		}
		break;
	}
	sym_assert(x->node != NULL && r == 0, "inner node created");
	return x;
}
/* seq, or, subset of n children */
static struct g *g_row(int kind, struct g **k, unsigned int n)
{
	struct g *x = g_new(kind);
	unsigned int i;
	int r = 0;

	x->nk = n;
	x->node = ec_node(kind == G_SEQ ? "seq" : kind == G_OR ? "or" : "subset", x->id);
	for (i = 0; i < n; i++) {
		x->k[i] = k[i];
		r |= kind == G_SEQ ? ec_node_seq_add(x->node, k[i]->node) : kind == G_OR ? ec_node_or_add(x->node, k[i]->node) :
			ec_node_subset_add(x->node, k[i]->node);
	}
	sym_assert(x->node != NULL && r == 0, "inner node created");
	return x;
}
/* n children reading "a", "b", ..; one of them, at any place, may be optional, repeated or open instead */
static struct g *g_wide(int kind, unsigned int n)
{
	static const char *lits[] = { "a", "b", "c", "d", "e", "f", "g", "h", "i" };
	unsigned int i, odd = sym_choice(n, "odd"), how = sym_choice(5, "how");
	struct g *k[GKIDS];

	for (i = 0; i < n; i++) {
		k[i] = g_leaf(i == odd && how == 1 ? G_ANY : G_STR, i == odd && how == 2 ? lits[0] : lits[i]);
		if (i == odd && how == 3)
			k[i] = g_inner(G_OPTION, k[i], NULL, NULL, 0, 0);
		if (i == odd && how == 4)
			k[i] = g_inner(G_MANY, k[i], NULL, NULL, 0, 0);
	}
	return g_row(kind, k, n);
}
/* repetition parameters */
static const unsigned char g_mm[][2] = { { 0, 0 }, { 1, 0 }, { 0, 1 }, { 2, 2 }, { 1, 2 }, { 2, 0 } };

/* any grammar of depth <= d over the kinds in mask; `leaves`: number of leaf alternatives */
#define K(x) (1u << (x))
static struct g *g_any(unsigned int d, unsigned int mask, const char *nm)
{
	int kinds[G_NKINDS + 3], n = 0, i;
	const char *lit[G_NKINDS + 3] = { 0 };
	unsigned int c;
	struct g *a, *b;

	if (mask & K(G_STR)) {
		lit[n] = g_lits[0];
		kinds[n++] = G_STR;
		lit[n] = g_lits[1];
		kinds[n++] = G_STR;
	}
	for (i = G_ANY; i <= G_NONE; i++)
		if (mask & K(i))
			kinds[n++] = i;
	if (d > 0)
		for (i = G_OPTION; i < G_NKINDS; i++)
			if (mask & K(i))
				kinds[n++] = i;
	c = sym_choice(n, nm);
	i = kinds[c];
	switch (i) {
	case G_STR: case G_ANY: case G_EMPTY: case G_NONE:
		return g_leaf(i, lit[c]);
	case G_OPTION: case G_BYPASS: case G_ONCE:
		return g_inner(i, g_any(d - 1, mask, nm), NULL, NULL, 0, 0);
	case G_MANY:
		c = sym_choice(sizeof(g_mm) / 2, "mm");
		return g_inner(i, g_any(d - 1, mask, nm), NULL, NULL, g_mm[c][0], g_mm[c][1]);
	default:
		a = g_any(d - 1, mask, nm);
		b = g_any(d - 1, mask, nm);
		return g_inner(i, a, b, NULL, 0, 0);
	}
}

/* words */
#ifndef WMAX
#define WMAX 10
#endif
#ifndef WLEN
#define WLEN 4
#endif
static char w_buf[WMAX][WLEN];
static unsigned int w_n;

/* n words of exactly `len` symbolic bytes */
static struct ec_strvec *w_make(unsigned int n, unsigned int len, const char *nm)
{
	struct ec_strvec *v = ec_strvec();
	unsigned int i;

	w_n = n;
	for (i = 0; i < n; i++) {
		h_strn(w_buf[i], len, nm);
		sym_assert(ec_strvec_add(v, w_buf[i]) == 0, "word added");
	}
	return v;
}

#define NOMATCH (-1)
/* reference matcher: words consumed from off, or NOMATCH. `trail` is the set of grammar nodes
 * matched so far and not abandoned (what a once node looks at). */
#define TRAIL 64
static const struct g *trail[TRAIL];
static unsigned int trail_n;
static int ref_match(const struct g *x, unsigned int off, unsigned int end);

struct sub { unsigned int cnt, len; };
static struct sub ref_subset(const struct g *x, unsigned int left, unsigned int off, unsigned int end)
{
	struct sub best = { 0, 0 }, r;
	const struct g *btrail[TRAIL];
	unsigned int i, j, t = trail_n, bt = 0;
	int m;

	for (i = 0; i < x->nk; i++) {
		if (!(left & (1u << i)))
			continue;
		m = ref_match(x->k[i], off, end);
		if (m == NOMATCH)
			continue;
		r = ref_subset(x, left & ~(1u << i), off + m, end);
		if (r.cnt + 1 > best.cnt) {
			best.cnt = r.cnt + 1;
			best.len = r.len + m;
			bt = trail_n - t;
			for (j = 0; j < bt; j++)
				btrail[j] = trail[t + j];
		}
		trail_n = t;
	}
	for (j = 0; j < bt; j++)
		trail[trail_n++] = btrail[j];
	return best;
}
static int ref_match1(const struct g *x, unsigned int off, unsigned int end)
{
	unsigned int i, n = 0, cnt = 0, t;
	int r;

	switch (x->kind) {
	case G_STR: return off < end && strcmp(w_buf[off], x->lit) == 0 ? 1 : NOMATCH;
	case G_ANY: return off < end ? 1 : NOMATCH;
	case G_EMPTY: return 0;
	case G_NONE: return NOMATCH;
	case G_OPTION:
		r = ref_match(x->k[0], off, end);
		return r == NOMATCH ? 0 : r;
	case G_BYPASS: return ref_match(x->k[0], off, end);
	case G_ONCE:
		for (i = 0; i < trail_n; i++)
			if (trail[i] == x->k[0])
				return NOMATCH;
		return ref_match(x->k[0], off, end);
	case G_SEQ:
		for (i = 0; i < x->nk; i++) {
			r = ref_match(x->k[i], off + n, end);
			if (r == NOMATCH)
				return NOMATCH;
			n += r;
		}
		return n;
	case G_OR:
		for (i = 0; i < x->nk; i++) {
			r = ref_match(x->k[i], off, end);
			if (r != NOMATCH)
				return r;
		}
		return NOMATCH;
	case G_SUBSET:
		if (off == end)
			return NOMATCH;
		return ref_subset(x, (1u << x->nk) - 1, off, end).len;
	case G_MANY:
		while (x->max == 0 || cnt < x->max) {
			t = trail_n;
			r = ref_match(x->k[0], off + n, end);
			if (r == 0)
				trail_n = t;
			if (r == NOMATCH || r == 0)
				break;
			n += r;
			cnt++;
		}
		return cnt < x->min ? NOMATCH : (int)n;
	}
	return NOMATCH;
}
static int ref_match(const struct g *x, unsigned int off, unsigned int end)
{
	unsigned int t = trail_n;
	int r = ref_match1(x, off, end);

	if (r == NOMATCH)
		trail_n = t;
	else
		trail[trail_n++] = x;
	return r;
}
/* which branch a reference `or` takes */
static int ref_branch(const struct g *x, unsigned int off, unsigned int end)
{
	unsigned int i;
	for (i = 0; i < x->nk; i++)
		if (ref_match(x->k[i], off, end) != NOMATCH)
			return i;
	return -1;
}
/* consistency of a matching parse tree with the grammar and the input words from off */
static void tree_check(const struct g *x, struct ec_pnode *p, unsigned int off)
{
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	struct ec_pnode *c;
	unsigned int i, n = 0, cnt = 0, seen = 0, len;

	sym_assert(ec_pnode_get_node(p) == x->node, "tree node points to the grammar node that matched");
	sym_assert(v != NULL && ec_pnode_matches(p), "every node of the tree matches");
	len = ec_strvec_len(v);
	sym_assert(len == ec_pnode_len(p) && off + len <= w_n, "words of a tree node lie in the input");
	for (i = 0; i < len; i++)
		sym_assert(strcmp(ec_strvec_val(v, i), w_buf[off + i]) == 0, "words of a tree node are those of the input");
	for (c = ec_pnode_get_first_child(p); c != NULL; c = ec_pnode_next(c)) {
		sym_assert(ec_pnode_get_parent(c) == p, "child points to its parent");
		for (i = 0; i < x->nk; i++)
			if (x->k[i]->node == ec_pnode_get_node(c) && !(x->kind == G_SUBSET && (seen & (1u << i))) &&
			    !(x->kind == G_SEQ && i != cnt))
				break;
		sym_assert(i < x->nk, "a child of the tree node is a usable child of the grammar node");
		seen |= 1u << i;
		tree_check(x->k[i], c, off + n);
		if (x->kind == G_MANY)
			sym_assert(ec_pnode_len(c) > 0, "no empty repetition in the tree");
		n += ec_pnode_len(c);
		cnt++;
	}
	switch (x->kind) {
	case G_STR: case G_ANY: case G_EMPTY: case G_NONE:
		sym_assert(cnt == 0, "a leaf has no child");
		return;
	case G_SEQ: sym_assert(cnt == x->nk, "a sequence has all its children in order"); break;
	case G_OR: case G_BYPASS: case G_ONCE: sym_assert(cnt == 1, "exactly one child in the tree"); break;
	case G_OPTION: sym_assert(cnt <= 1, "at most one child in the tree"); break;
	case G_MANY: sym_assert(cnt >= x->min && (x->max == 0 || cnt <= x->max), "repetition count within bounds"); break;
	}
	sym_assert(n == len, "words of an inner node are the concatenation of its children's");
}
static struct g *g_of_node(const struct ec_node *n)
{
	unsigned int i;
	for (i = 0; i < g_n; i++)
		if (g_pool[i].node == n)
			return &g_pool[i];
	return NULL;
}
#endif
