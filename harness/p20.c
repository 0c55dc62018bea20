/* P20: navigation and copies of parse trees */
#include "gram.h"
#ifndef M
#define M 4
#endif
#ifndef W
#define W 2
#endif
static char idc[8][2], look[2]; /* identifiers: one arbitrary byte */
static struct ec_node *nodes[8];
static struct ec_pnode *t[8];
static int par[8], has[8], alive[8]; /* model: parent, whether it has a grammar node */
static unsigned nn;
static int ord[8], no; /* preorder of the model */
static void pre(int i)
{
	unsigned j;
	ord[no++] = i;
	for (j = i + 1; j < nn; j++)
		if (alive[j] && par[j] == i)
			pre(j);
}
static void order(int r)
{
	no = 0;
	pre(r);
}
static int desc(int i, int a) /* i in the subtree of a */
{
	while (i != a && i >= 0)
		i = par[i];
	return i == a;
}
static void drop(int a)
{
	unsigned i;
	for (i = 0; i < nn; i++)
		if (alive[i] && desc(i, a))
			alive[i] = 2;
	for (i = 0; i < nn; i++)
		if (alive[i] == 2)
			alive[i] = 0;
}
static void build(void)
{
	unsigned i;
	nn = 1 + sym_choice(M, "nodes");
	for (i = 0; i < nn; i++) {
		par[i] = i ? (int)sym_choice(i, "parent") : -1;
		has[i] = i == 0 || i == 3 || sym_choice(2, "node");
		if (i == 2)
			sym_part();
		alive[i] = 1;
		h_strn(idc[i], 1, "id");
		if (has[i])
			sym_assert((nodes[i] = ec_node("any", idc[i])) != NULL, "node created");
		t[i] = ec_pnode(nodes[i]);
		sym_assert(t[i] != NULL, "tree node created");
		if (i)
			ec_pnode_link_child(t[par[i]], t[i]);
	}
	if (nn <= 2)
		sym_part();
	h_strn(look, 1, "look");
}
static int hit(int i) { return has[i] && sym_concrete(idc[i][0] == look[0]); }
/* every accessor agrees with the model */
static void check(void)
{
	unsigned i, j;
	int first, last, nxt, k, l;
	const struct ec_pnode *p;
	struct ec_pnode *q;

	for (i = 0; i < nn; i++) {
		if (!alive[i])
			continue;
		first = last = nxt = -1;
		for (j = i + 1; j < nn; j++) {
			if (!alive[j])
				continue;
			if (par[j] == (int)i) {
				if (first < 0)
					first = j;
				last = j;
			}
			if (par[j] == par[i] && par[i] >= 0 && nxt < 0)
				nxt = j;
		}
		sym_assert(ec_pnode_get_first_child(t[i]) == (first < 0 ? NULL : t[first]), "first child");
		sym_assert(ec_pnode_get_last_child(t[i]) == (last < 0 ? NULL : t[last]), "last child");
		if (par[i] >= 0)
			sym_assert(ec_pnode_next(t[i]) == (nxt < 0 ? NULL : t[nxt]), "next sibling");
		sym_assert(ec_pnode_get_parent(t[i]) == (par[i] < 0 ? NULL : t[par[i]]), "parent");
		for (k = i; par[k] >= 0; k = par[k])
			;
		sym_assert(ec_pnode_get_root(t[i]) == t[k], "root");
		sym_assert(ec_pnode_get_node(t[i]) == nodes[i], "grammar node");
		order(i);
		k = 0;
		for (q = t[i]; q != NULL; q = EC_PNODE_ITER_NEXT(t[i], q, 1)) {
			sym_assert(k < no && q == t[ord[k]], "iteration in preorder");
			k++;
		}
		sym_assert(k == no, "iteration visits the whole tree");
		/* skipping the children of every node in turn */
		for (k = 0; k < no; k++) {
			for (l = k + 1; l < no && desc(ord[l], ord[k]); l++)
				;
			q = EC_PNODE_ITER_NEXT(t[i], t[ord[k]], 0);
			sym_assert(q == (l < no ? t[ord[l]] : NULL), "skipping the children of a node");
		}
		{
			k = 0;
			for (p = ec_pnode_find(t[i], look); ; p = ec_pnode_find_next(t[i], p, look, 1)) {
				while (k < no && !hit(ord[k]))
					k++;
				sym_assert(p == (k < no ? t[ord[k]] : NULL), "search returns the nodes with the identifier in order");
				if (p == NULL)
					break;
				k++;
			}
			/* without the children of the previous one */
			for (p = ec_pnode_find(t[i], look), k = 0; p != NULL; ) {
				while (t[ord[k]] != p)
					k++;
				for (l = k + 1; l < no && (desc(ord[l], ord[k]) || !hit(ord[l])); l++)
					;
				p = ec_pnode_find_next(t[i], p, look, 0);
				sym_assert(p == (l < no ? t[ord[l]] : NULL), "search past the children of a node");
			}
		}
	}
}
static void end(void)
{
	unsigned i;
	for (i = 0; i < nn; i++)
		if (alive[i] && par[i] < 0)
			ec_pnode_free(t[i]);
	for (i = 0; i < nn; i++)
		ec_node_free(nodes[i]);
	h_end();
}
void h_nav(void)
{
	unsigned op, i, j;

	build();
	check();
	op = sym_choice(5, "op");
	i = sym_choice(nn, "at");
	switch (op) {
	case 0: break;
	case 1: /* unlink: two trees */
		ec_pnode_unlink_child(t[i]);
		par[i] = -1;
		break;
	case 2: /* delete the last child */
		for (j = nn; j-- > i + 1; )
			if (par[j] == (int)i)
				break;
		ec_pnode_del_last_child(t[i]);
		if (j > i)
			drop(j);
		break;
	case 3:
		ec_pnode_free_children(t[i]);
		for (j = i + 1; j < nn; j++)
			if (alive[j] && par[j] == (int)i)
				drop(j);
		break;
	default: /* move under the root again: last child */
		if (i == 0)
			break;
		ec_pnode_unlink_child(t[i]);
		/* the model keeps children ordered by index: move only what stays last */
		for (j = i + 1; j < nn; j++)
			if (par[j] == 0)
				break;
		if (j < nn) {
			par[i] = -1;
			break;
		}
		ec_pnode_link_child(t[0], t[i]);
		par[i] = 0;
		break;
	}
	check();
	end();
}
static void same(struct ec_pnode *a, struct ec_pnode *b)
{
	struct ec_pnode *x, *y;
	struct ec_dict *d, *e;

	sym_assert(a != b, "a copy is another tree");
	sym_assert(ec_pnode_get_node(a) == ec_pnode_get_node(b), "a copy has the same grammar nodes");
	sym_assert(ec_pnode_matches(a) == ec_pnode_matches(b) && ec_pnode_len(a) == ec_pnode_len(b), "a copy has as many words");
	if (ec_pnode_get_strvec(a)) {
		const struct ec_strvec *u = ec_pnode_get_strvec(a), *v = ec_pnode_get_strvec(b);
		size_t i;
		sym_assert(ec_strvec_cmp(u, v) == 0, "a copy has the same words");
		for (i = 0; i < ec_strvec_len(u) && i < ec_strvec_len(v); i++)
			sym_assert((ec_strvec_get_attrs(u, i) != NULL) == (ec_strvec_get_attrs(v, i) != NULL) &&
				   (!ec_strvec_get_attrs(u, i) || ec_dict_has_key(ec_strvec_get_attrs(v, i), "s")), "a copy has the attributes of the words");
	}
	d = ec_pnode_get_attrs(a);
	e = ec_pnode_get_attrs(b);
	sym_assert(d != NULL && e != NULL && d != e && ec_dict_len(d) == ec_dict_len(e), "a copy has as many attributes");
	sym_assert(ec_dict_has_key(d, "k") == ec_dict_has_key(e, "k") && ec_dict_get(d, "k") == ec_dict_get(e, "k"), "a copy has the same attributes");
	x = ec_pnode_get_first_child(a);
	y = ec_pnode_get_first_child(b);
	for (; x != NULL && y != NULL; x = ec_pnode_next(x), y = ec_pnode_next(y)) {
		sym_assert(ec_pnode_get_parent(y) == b, "children of a copy point to their parent");
		same(x, y);
	}
	sym_assert(x == NULL && y == NULL, "a copy has the same shape");
}
static char mark, mark2;
/* position in preorder */
static int rank(struct ec_pnode *p)
{
	struct ec_pnode *r = ec_pnode_get_root(p), *q;
	int k = 0;
	for (q = r; q != p; q = EC_PNODE_ITER_NEXT(r, q, 1))
		k++;
	return k;
}
static void dup(struct ec_pnode *root, struct ec_pnode *at, struct ec_pnode *attr)
{
	struct ec_pnode *c, *cr, *x;
	unsigned fin;

	if (attr)
		sym_assert(ec_dict_set(ec_pnode_get_attrs(attr), "k", &mark, NULL) == 0, "attribute set");
	c = ec_pnode_dup(at);
	sym_assert(c != NULL, "copied");
	cr = ec_pnode_get_root(c);
	same(root, cr);
	sym_assert(rank(c) == rank(at), "the cursor of the copy is the copy of the cursor");
	fin = sym_choice(4, "fin");
	if (fin == 0) {
		/* the copy changes */
		sym_assert(ec_dict_set(ec_pnode_get_attrs(c), "z", &mark2, NULL) == 0, "attribute set");
		sym_assert(!ec_dict_has_key(ec_pnode_get_attrs(at), "z"), "changing the copy leaves the original");
		ec_pnode_free_children(cr);
		ec_pnode_free(cr);
		for (x = root; x != NULL; x = EC_PNODE_ITER_NEXT(root, x, 1))
			sym_assert(ec_dict_has_key(ec_pnode_get_attrs(x), "k") == (x == attr), "changing the copy leaves the original");
		ec_pnode_free(root);
	} else if (fin == 1) {
		sym_assert(ec_dict_set(ec_pnode_get_attrs(at), "z", &mark2, NULL) == 0, "attribute set");
		sym_assert(!ec_dict_has_key(ec_pnode_get_attrs(c), "z"), "changing the original leaves the copy");
		if (attr)
			sym_assert(ec_dict_del(ec_pnode_get_attrs(attr), "k") == 0, "attribute deleted");
		fin = 0;
		for (x = cr; x != NULL; x = EC_PNODE_ITER_NEXT(cr, x, 1))
			fin += ec_dict_has_key(ec_pnode_get_attrs(x), "k");
		sym_assert(fin == (attr != NULL), "changing the original leaves the copy");
		ec_pnode_free(root);
		ec_pnode_free(cr);
	} else {
		/* the copy survives the original and can be copied in turn */
		x = NULL;
		if (fin == 3) {
			x = ec_pnode_dup(c);
			sym_assert(x != NULL && rank(x) == rank(c), "copied");
			x = ec_pnode_get_root(x);
		}
		ec_pnode_free(root);
		if (x) {
			same(cr, x);
			ec_pnode_free(x);
		}
		ec_pnode_free(cr);
	}
}
void h_dup(void)
{
	unsigned i, at, attr;
	build();
	at = sym_choice(nn, "at");
	attr = sym_choice(nn + 1, "attr");
	dup(t[0], t[at], attr < nn ? t[attr] : NULL);
	for (i = 0; i < nn; i++)
		alive[i] = 0;
	end();
}
/* real parse trees, with words and string attributes */
void h_parse(void)
{
	struct g *g;
	struct ec_pnode *p, *at;
	struct ec_strvec *v;
	unsigned k, n;
	struct ec_dict *d;

	g = g_any(2, K(G_STR) | K(G_ANY) | K(G_OPTION) | K(G_SEQ) | K(G_MANY), "g");
	sym_part();
	v = w_make(sym_choice(W + 1, "n"), 1, "w");
	if (w_n) {
		d = ec_dict();
		sym_assert(d && ec_dict_set(d, "s", &mark, NULL) == 0 && ec_strvec_set_attrs(v, 0, d) == 0, "attribute set");
	}
	p = ec_parse_strvec(g->node, v);
	sym_assert(p != NULL, "parsing reports no error");
	ec_strvec_free(v);
	for (n = 0, at = p; at != NULL; at = EC_PNODE_ITER_NEXT(p, at, 1))
		n++;
	k = n == 1 ? 0 : sym_choice(n, "at");
	for (at = p; k--; )
		at = EC_PNODE_ITER_NEXT(p, at, 1);
	if (ec_pnode_matches(p))
		sym_cover("match");
	dup(p, at, at);
	ec_node_free(g->node);
	h_end();
}
