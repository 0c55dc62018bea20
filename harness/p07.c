/* P07: completion lists */
#include "harness.h"
#ifndef ITEMS
#define ITEMS 4
#endif
#ifndef NL
#define NL 1
#endif
#ifndef LONG
#define LONG 300
#endif
#define MAXI 8
/* what was added, in order */
static struct rec {
	int type, grp;
	char start[3], full[4], disp[3], comp[3];
	int has_start, set;
	const struct ec_node *node;
	struct ec_comp_item *item;
} rec[MAXI];
static unsigned nrec, ngrp, budget;

static void add(const struct ec_node *node, struct ec_comp *comp, int grp)
{
	struct rec *r = &rec[nrec];
	struct ec_comp_item *it;
	int bad;

	r->type = 1 << sym_choice(3, "type");
	r->grp = grp;
	r->node = node;
	if (r->type != EC_COMP_UNKNOWN) {
		h_strn(r->full, NL, "full");
		r->has_start = sym_choice(2, "has_start");
		if (r->has_start)
			h_str(r->start, NL, "start");
	}
	it = ec_comp_add_item(comp, node, r->type, r->has_start ? r->start : NULL, r->type == EC_COMP_UNKNOWN ? NULL : r->full);
	sym_assert(it != NULL, "item added");
	r->item = it;
#ifdef SETTERS
	r->set = sym_choice(4, "set");
	if (r->set == 1) {
		h_str(r->disp, 1, "disp");
		bad = ec_comp_item_set_display(it, r->disp);
	} else if (r->set == 2) {
		h_str(r->comp, 1, "comp");
		bad = ec_comp_item_set_completion(it, r->comp);
	} else if (r->set == 3) {
		h_str(r->full, 1, "full2");
		bad = ec_comp_item_set_str(it, r->full);
	} else
		bad = 0;
	if (r->set && r->type == EC_COMP_UNKNOWN) {
		sym_assert(bad < 0, "text of an unknown item is refused");
		r->set = 0;
	} else
		sym_assert(bad == 0, "text set");
#else
	(void)bad;
#endif
	if (++nrec == 2)
		sym_part();
}
static struct ec_node *kid;
static int cpl(const struct ec_node *node, struct ec_comp *comp, const struct ec_strvec *sv)
{
	int grp = -1, after = 0;
	unsigned n = sym_choice(budget + 1, "n");

	budget -= n;
	/* a nested completion, at first or in the middle, opens its own group */
	if (kid != NULL && kid != node && sym_choice(2, "nest")) {
		after = 1;
		sym_assert(ec_complete_child(kid, comp, sv) == 0, "nested completion");
	}
	while (n-- > 0) {
		if (grp < 0)
			grp = ngrp++;
		add(node, comp, grp);
		if (kid != NULL && kid != node && !after && sym_choice(2, "nest")) {
			after = 1;
			sym_assert(ec_complete_child(kid, comp, sv) == 0, "nested completion");
		}
	}
	return 0;
}
static int prs(const struct ec_node *node, struct ec_pnode *st, const struct ec_strvec *sv)
{
	(void)node; (void)st; (void)sv;
	return EC_PARSE_NOMATCH;
}
static struct ec_node_type ty = { .name = "probe", .parse = prs, .complete = cpl, .size = 0 };
static void check_text(const struct rec *r, struct ec_comp_item *it)
{
	const char *s = ec_comp_item_get_str(it), *d = ec_comp_item_get_display(it), *c = ec_comp_item_get_completion(it);

	sym_assert(ec_comp_item_get_type(it) == (enum ec_comp_type)r->type, "kind kept");
	sym_assert(ec_comp_item_get_node(it) == r->node, "node kept");
	sym_assert(ec_comp_group_get_node(ec_comp_item_get_grp(it)) == r->node, "group's node kept");
	sym_assert(ec_pnode_get_node(ec_comp_group_get_pstate(ec_comp_item_get_grp(it))) == r->node, "state of the group is that of its node");
	if (r->type == EC_COMP_UNKNOWN) {
		sym_assert(s == NULL && d == NULL && c == NULL, "an unknown item has no text");
		return;
	}
	sym_assert(s != NULL && strcmp(s, r->full) == 0, "text kept");
	if (r->set == 3)
		return;
	sym_assert(d != NULL && strcmp(d, r->set == 1 ? r->disp : r->full) == 0, "display kept");
	if (r->set == 2)
		sym_assert(c != NULL && strcmp(c, r->comp) == 0, "completion kept");
	else if (!r->has_start || strncmp(r->full, r->start, strlen(r->start)) != 0)
		sym_assert(c == NULL, "no completion when the text does not extend the start");
	else {
		sym_assert(c != NULL && strcmp(c, r->full + strlen(r->start)) == 0, "completion is the missing part");
		sym_cover("completion");
	}
}
static void check_iter(struct ec_comp *c)
{
	unsigned mask, g, i, n;
	struct ec_comp_item *it;

	for (mask = 0; mask < 8; mask++) {
		it = ec_comp_iter_first(c, mask);
		n = 0;
		for (g = 0; g < ngrp; g++)
			for (i = 0; i < nrec; i++) {
				if (rec[i].grp != (int)g || !(rec[i].type & mask))
					continue;
				sym_assert(it == rec[i].item, "iteration visits every wanted item once, in order");
				it = ec_comp_iter_next(it, mask);
				n++;
			}
		sym_assert(it == NULL, "iteration ends after the last wanted item");
		sym_assert(ec_comp_count(c, mask) == n, "count is the number of wanted items");
	}
	for (i = 0; i < nrec; i++) {
		check_text(&rec[i], rec[i].item);
		for (g = 0; g < nrec; g++)
			sym_assert((ec_comp_item_get_grp(rec[i].item) == ec_comp_item_get_grp(rec[g].item)) == (rec[i].grp == rec[g].grp), "items of one node share a group");
	}
}
static void iter(void)
{
	struct ec_node *top = NULL, *n[3];
	struct ec_strvec *v;
	struct ec_comp *c, *c2;
	unsigned i, shape;

	h_init();
	sym_assert(ec_node_type_register(&ty, false) == 0, "probe type registered");
	budget = ITEMS;
	shape = sym_choice(3, "shape");
	for (i = 0; i < 3; i++)
		n[i] = ec_node("probe", "p");
	v = EC_STRVEC("");
	if (shape == 0) { /* three groups of any sizes */
		top = ec_node("or", "o");
		for (i = 0; i < 3; i++)
			sym_assert(ec_node_or_add(top, n[i]) == 0, "added");
		c = ec_complete_strvec(top, v);
	} else if (shape == 1) { /* nested completion in the middle of a group */
		kid = n[1];
		c = ec_complete_strvec(n[0], v);
	} else { /* merge of two lists */
		c = ec_complete_strvec(n[0], v);
		c2 = ec_complete_strvec(n[1], v);
		sym_assert(c != NULL && c2 != NULL && ec_comp_merge(c, c2) == 0, "merged");
		sym_cover("merge");
	}
	sym_assert(c != NULL, "completion list built");
	check_iter(c);
	ec_comp_free(c);
	sym_assert(ec_comp_count(NULL, EC_COMP_ALL) == 0, "no list has no item");
	if (shape == 0)
		ec_node_free(top);
	else
		for (i = 0; i < 3; i++)
			ec_node_free(n[i]);
	ec_strvec_free(v);
	h_end();
}
void h_iter(void) { iter(); }
void h_text(void) { iter(); }
/* refused items leave the list as it was */
static int bad_cpl(const struct ec_node *node, struct ec_comp *comp, const struct ec_strvec *sv)
{
	char f[3];
	unsigned t = sym_u8("t");
	int ok;
	struct ec_comp_item *it;

	(void)sv;
	h_str(f, 2, "f");
	unsigned nul = sym_choice(2, "nul");
	it = ec_comp_add_item(comp, node, t, sym_choice(2, "st") ? f : NULL, nul ? NULL : f);
	ok = (t == EC_COMP_UNKNOWN && nul) || ((t == EC_COMP_FULL || t == EC_COMP_PARTIAL) && !nul);
	if (it != NULL) {
		sym_assert(ok, "an item is accepted only with a known kind and the text of that kind");
		sym_assert(ec_comp_count(comp, EC_COMP_ALL) == 1, "accepted item counted");
		sym_cover("accepted");
	} else {
		sym_assert(ec_comp_count(comp, EC_COMP_ALL) == 0, "refused item not counted");
		sym_assert(ec_comp_iter_first(comp, EC_COMP_ALL) == NULL, "refused item not listed");
		sym_cover("refused");
	}
	return 0;
}
void h_refuse(void)
{
	struct ec_node *n;
	struct ec_strvec *v;
	struct ec_comp *c;

	h_init();
	ty.complete = bad_cpl;
	sym_assert(ec_node_type_register(&ty, false) == 0, "probe type registered");
	n = ec_node("probe", "p");
	v = EC_STRVEC("");
	c = ec_complete_strvec(n, v);
	sym_assert(c != NULL, "completion list built");
	ec_comp_free(c);
	ec_node_free(n);
	ec_strvec_free(v);
	h_end();
}
/* long texts: the start is that of the text, or differs from it by one byte anywhere */
static char l_start[LONG + 1], l_full[LONG + 4];
static int long_cpl(const struct ec_node *node, struct ec_comp *comp, const struct ec_strvec *sv)
{
	struct ec_comp_item *it;
	size_t n = strlen(l_start);
	unsigned part = sym_choice(2, "partial");

	(void)sv;
	it = ec_comp_add_item(comp, node, part ? EC_COMP_PARTIAL : EC_COMP_FULL, l_start, l_full);
	sym_assert(it != NULL, "item added");
	sym_assert(strcmp(ec_comp_item_get_str(it), l_full) == 0 && strcmp(ec_comp_item_get_display(it), l_full) == 0, "text kept");
	if (memcmp(l_start, l_full, n) == 0) {
		sym_assert(ec_comp_item_get_completion(it) != NULL && strcmp(ec_comp_item_get_completion(it), l_full + n) == 0, "completion is the missing part");
		sym_cover("completion");
	} else
		sym_assert(ec_comp_item_get_completion(it) == NULL, "no completion when the text does not extend the start");
	return 0;
}
void h_longtext(void)
{
	static struct ec_node_type lt = { .name = "long", .parse = prs, .complete = long_cpl, .size = 0 };
	static const unsigned len[] = { 1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300 };
	unsigned n = len[sym_choice(12, "len")], pos;
	struct ec_node *node;
	struct ec_strvec *v;
	struct ec_comp *c;

	if (n > LONG)
		sym_stop();
	h_init();
	sym_assert(ec_node_type_register(&lt, false) == 0, "type registered");
	node = ec_node("long", "n");
	memset(l_start, 'x', n);
	memset(l_full, 'x', n);
	h_str(l_full + n, 2, "rest");
	pos = sym_choice(3, "pos") * (n - 1) / 2;
	sym_assume((l_full[pos] = sym_u8("byte")) != 0);
	v = EC_STRVEC("");
	c = ec_complete_strvec(node, v);
	sym_assert(c != NULL && ec_comp_count(c, EC_COMP_ALL) == 1, "one item");
	ec_comp_free(c);
	ec_strvec_free(v);
	ec_node_free(node);
	h_end();
}
