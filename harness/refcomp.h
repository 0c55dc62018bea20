/* Reference completion over gram.h grammars: which literals (bit i: g_lits[i]) may be read next. */
#ifndef REFCOMP_H
#define REFCOMP_H
#include "gram.h"
static unsigned exp_full, exp_unk, exp_maybe;
static void ref_comp(const struct g *x, unsigned off, unsigned end);
static int readable(const struct g *x, unsigned off, unsigned end) { return ref_match(x, off, end) == (int)(end - off); }
static void ref_seq(const struct g *x, unsigned k, unsigned off, unsigned end)
{
	unsigned i, t = trail_n;

	if (k == x->nk)
		return;
	ref_comp(x->k[k], off, end);
	for (i = off; i < end; i++) {
		if (readable(x->k[k], off, i))
			ref_seq(x, k + 1, i, end);
		trail_n = t;
	}
}
static void ref_many(const struct g *x, unsigned max, unsigned off, unsigned end)
{
	unsigned i, t = trail_n;

	ref_comp(x->k[0], off, end);
	if (max == 1)
		return;
	for (i = off + 1; i < end; i++) {
		if (readable(x->k[0], off, i))
			ref_many(x, max ? max - 1 : 0, i, end);
		trail_n = t;
	}
}
static void ref_sub(const struct g *x, unsigned left, unsigned off, unsigned end)
{
	unsigned i, k, t = trail_n;

	for (k = 0; k < x->nk; k++)
		if (left & (1u << k))
			ref_comp(x->k[k], off, end);
	for (k = 0; k < x->nk; k++) {
		if (!(left & (1u << k)))
			continue;
		for (i = off; i < end; i++) {
			if (readable(x->k[k], off, i))
				ref_sub(x, left & ~(1u << k), i, end);
			trail_n = t;
		}
	}
}
static void ref_comp(const struct g *x, unsigned off, unsigned end)
{
	unsigned i;

	switch (x->kind) {
	case G_STR:
		if (end - off == 1 && strncmp(x->lit, w_buf[off], strlen(w_buf[off])) == 0)
			for (i = 0; i < g_nlits; i++)
				if (strcmp(g_lits[i], x->lit) == 0)
					exp_full |= 1u << i;
		break;
	case G_ANY:
		if (end - off == 1)
			exp_unk = 1;
		break;
	case G_EMPTY: exp_maybe = 1; break;
	case G_NONE: break;
	case G_OPTION: case G_BYPASS: ref_comp(x->k[0], off, end); break;
	case G_ONCE:
		for (i = 0; i < trail_n; i++)
			if (trail[i] == x->k[0])
				return;
		ref_comp(x->k[0], off, end);
		break;
	case G_OR:
		for (i = 0; i < x->nk; i++)
			ref_comp(x->k[i], off, end);
		break;
	case G_SEQ: ref_seq(x, 0, off, end); break;
	case G_MANY: ref_many(x, x->max, off, end); break;
	case G_SUBSET: ref_sub(x, (1u << x->nk) - 1, off, end); break;
	}
}
#endif
