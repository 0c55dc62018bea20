/* long identifiers, many references: search in grammars and parse trees */
#include "harness.h"
#include <ecoli_node_or.h>
#include <ecoli_node_seq.h>
#include <ecoli_node_str.h>
static const unsigned lens[] = { 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257 };
#define NL_ 19
static char ia[300], ib[300], want[300];
/* two identifiers of (about) the same length that differ in one place, and one that is sought */
static int same(const char *x, const char *y) { return sym_concrete(!strcmp(x, y)); }
static unsigned ids(void)
{
	unsigned n = lens[sym_choice(NL_, "len")], i, at, d;

	for (i = 0; i < n; i++)
		ia[i] = ib[i] = want[i] = 'a' + i % 23;
	ia[n] = ib[n] = want[n] = 0;
	at = sym_choice(3, "at");
	at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
	sym_assume((ia[at] = sym_u8("a")) != 0);
	sym_assume((want[at] = sym_u8("want")) != 0);
	d = sym_choice(3, "wlen"); /* sought: as long, one shorter, one longer */
	if (d == 1)
		want[n - 1] = 0;
	if (d == 2) {
		want[n] = 'z';
		want[n + 1] = 0;
	}
	return n;
}
void h_grammar(void)
{
	struct ec_node *g, *a, *b, *f;
	unsigned deep = sym_choice(2, "deep"), i;

	h_init();
	ids();
	sym_part();
	a = ec_node("str", ia);
	b = ec_node("any", ib);
	sym_assert(a && b && !strcmp(ec_node_id(a), ia) && !strcmp(ec_node_id(b), ib), "a node has its identifier");
	g = ec_node("or", "");
	sym_assert(g && ec_node_or_add(g, a) == 0 && ec_node_or_add(g, b) == 0, "children added");
	for (i = 0; deep && i < 40; i++)
		g = EC_NODE_SEQ("", g);
	f = ec_node_find(g, want);
	if (f == NULL)
		sym_assert(!same(want, ia) && !same(want, ib) && want[0] != 0, "a node with the identifier is found");
	else
		sym_assert(same(ec_node_id(f), want), "what is found has the identifier");
	sym_cover(f ? "found" : "none");
	ec_node_free(g);
	h_end();
}
void h_tree(void)
{
	struct ec_node *g, *a, *b;
	const struct ec_pnode *f;
	struct ec_pnode *p, *c;
	struct ec_strvec *v;
	unsigned n;

	h_init();
	ids();
	sym_part();
	a = ec_node("any", ia);
	b = ec_node("any", ib);
	g = EC_NODE_SEQ("", a, b, ec_node("any", ia));
	sym_assert(g != NULL, "grammar built");
	v = EC_STRVEC("x", "y", "z");
	p = ec_parse_strvec(g, v);
	sym_assert(p != NULL && ec_pnode_matches(p), "match");
	/* the nodes with the identifier, in order */
	f = ec_pnode_find(p, want);
	if (want[0] == 0) {
		sym_assert(f == p, "the root has the empty identifier");
		f = ec_pnode_find_next(p, f, want, 1);
	}
	for (n = 0, c = ec_pnode_get_first_child(p); c != NULL; c = ec_pnode_next(c), n++) {
		if (!same(want, n == 1 ? ib : ia))
			continue;
		sym_assert(f == c, "search returns the nodes with the identifier in order");
		f = ec_pnode_find_next(p, f, want, 1);
		sym_cover("found");
	}
	sym_assert(f == NULL && n == 3, "and nothing else");
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(g);
	h_end();
}
/* a node with many users */
void h_refs(void)
{
	static const unsigned counts[] = { 1, 2, 17, 127, 128, 129, 255, 256, 257, 300 };
	static struct ec_node *par[300];
	unsigned n = counts[sym_choice(10, "n")], i, j, how = sym_choice(4, "how"), held = sym_choice(2, "held"), cyc = sym_choice(2, "cycle"), rev = sym_choice(2, "reverse"), m = cyc && rev ? 1 : n;
	struct ec_node *x, *hub = NULL;

	h_init();
	sym_part();
	x = how == 3 ? ec_node("or", "x") : ec_node_str("x", "x");
	switch (how) {
	case 0: /* references held by the caller */
		for (i = 0; i < n; i++)
			sym_assert(ec_node_clone(x) == x, "one more reference");
		if (!held)
			ec_node_free(x);
		for (i = 0; i < n; i++) {
			sym_assert(!strcmp(ec_node_id(x), "x"), "alive while referenced");
			ec_node_free(x);
		}
		break;
	case 1: /* children of one node, many times */
		hub = ec_node("or", "hub");
		for (i = 0; i < m; i++)
			sym_assert(ec_node_or_add(hub, ec_node_clone(x)) == 0, "child added");
		if (cyc) {
			ec_node_clone(hub);
			ec_node_free(hub); /* a reference more, dropped: nothing is released */
			sym_assert(!strcmp(ec_node_id(hub), "hub") && ec_node_get_children_count(hub) == m, "alive while referenced");
			/* and the node is in a cycle */
			if (rev) {
				struct ec_node *loop = ec_node("or", "loop");
				for (i = 0; i < n; i++)
					sym_assert(ec_node_or_add(loop, ec_node_clone(hub)) == 0, "child added");
				sym_assert(ec_node_or_add(hub, loop) == 0, "cycle closed");
			}
		}
		if (!held)
			ec_node_free(x);
		sym_assert(!strcmp(ec_node_id(x), "x"), "alive while used");
		ec_node_free(hub);
		break;
	default: /* children of many nodes, in a cycle with them */
		for (i = 0; i < n; i++) {
			par[i] = ec_node("or", "p");
			sym_assert(par[i] && ec_node_or_add(par[i], ec_node_clone(x)) == 0, "child added");
			if (how == 3 && cyc)
				sym_assert(ec_node_or_add(x, ec_node_clone(par[i])) == 0, "cycle closed");
			if (how == 3 && n > 17)
				sym_stop();
		}
		if (!held)
			ec_node_free(x);
		for (j = 0; j < n; j++) {
			i = rev ? n - 1 - j : j;
			sym_assert(!strcmp(ec_node_id(x), "x") && !strcmp(ec_node_id(par[i]), "p"), "alive while referenced");
			ec_node_free(par[i]);
		}
	}
	if (held) {
		sym_assert(!strcmp(ec_node_id(x), "x"), "alive while held");
		ec_node_free(x);
	}
	h_end();
}
