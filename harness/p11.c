/* P11: string vectors as values */
#include "harness.h"
#ifndef N
#define N 2
#endif
#ifndef OPS
#define OPS 3
#endif
#define MAXL 8
struct rv { char c[MAXL]; unsigned char attr[MAXL]; unsigned n; };
static struct ec_strvec *v[3];
static struct rv r[3];
static unsigned nv;

static int attr_of(struct ec_strvec *x, unsigned i)
{
	const struct ec_dict *d = ec_strvec_get_attrs(x, i);
	if (d == NULL)
		return 0;
	return (int)(uintptr_t)ec_dict_get(d, "k");
}
static void check(unsigned k)
{
	unsigned i;

	sym_assert(ec_strvec_len(v[k]) == r[k].n, "length as a list");
	for (i = 0; i < r[k].n; i++) {
		const char *s = ec_strvec_val(v[k], i);
		sym_assert(s != NULL && s[0] == r[k].c[i] && s[1] == 0, "element as in a list");
		sym_assert(attr_of(v[k], i) == r[k].attr[i], "attributes of the element");
	}
	sym_assert(ec_strvec_val(v[k], r[k].n) == NULL, "no element past the end");
}
static struct ec_dict *mkattr(unsigned val)
{
	struct ec_dict *d = ec_dict();
	sym_assert(d != NULL && ec_dict_set(d, "k", (void *)(uintptr_t)val, NULL) == 0, "attributes built");
	return d;
}
void h_hist(void)
{
	unsigned step, k, o, i, off, len, idx, nattr = 1;
	char s[2] = { 0 };

	h_init();
	nv = 1;
	v[0] = ec_strvec();
	for (i = 0; i < 2; i++) { /* start with two elements, the second with attributes */
		h_strn(s, 1, "s");
		sym_assert(ec_strvec_add(v[0], s) == 0, "add succeeds");
		r[0].c[r[0].n++] = s[0];
	}
	sym_assert(ec_strvec_set_attrs(v[0], 1, mkattr(nattr)) == 0, "attributes set");
	r[0].attr[1] = nattr++;
	for (step = 0; step < OPS; step++) {
		o = sym_choice(5, "op");
		k = sym_choice(nv, "vec");
		switch (o) {
		case 0:
			h_strn(s, 1, "s");
			sym_assert(ec_strvec_add(v[k], s) == 0, "add succeeds");
			r[k].attr[r[k].n] = 0;
			r[k].c[r[k].n++] = s[0];
			break;
		case 1:
			idx = sym_u8("idx");
			h_strn(s, 1, "s");
			if (idx < r[k].n) {
				idx = sym_concrete(idx);
				sym_assert(ec_strvec_set(v[k], idx, s) == 0, "set succeeds");
				r[k].c[idx] = s[0];
				r[k].attr[idx] = 0;
				sym_cover("set");
			} else
				sym_assert(ec_strvec_set(v[k], idx, s) < 0, "set past the end is refused");
			break;
		case 2:
			if (r[k].n == 0)
				sym_assert(ec_strvec_del_last(v[k]) < 0, "delete from an empty vector is refused");
			else {
				sym_assert(ec_strvec_del_last(v[k]) == 0, "delete succeeds");
				r[k].n--;
			}
			break;
		case 3: {
			struct ec_strvec *c;
			if (nv == 3)
				sym_stop();
			off = sym_choice(r[k].n + 2, "off");
			len = sym_choice(r[k].n + 2, "len");
			c = off == 0 && len == r[k].n ? ec_strvec_dup(v[k]) : ec_strvec_ndup(v[k], off, len);
			if (off + len > r[k].n) {
				sym_assert(c == NULL, "sub-range past the end is refused");
				break;
			}
			sym_assert(c != NULL, "copy made");
			for (i = 0; i < len; i++) {
				r[nv].c[i] = r[k].c[off + i];
				r[nv].attr[i] = r[k].attr[off + i];
			}
			r[nv].n = len;
			v[nv++] = c;
			sym_cover("copied");
			break;
		}
		case 4:
			idx = sym_choice(r[k].n + 1, "aidx");
			if (idx < r[k].n) {
				sym_assert(ec_strvec_set_attrs(v[k], idx, mkattr(nattr)) == 0, "attributes set");
				r[k].attr[idx] = nattr++;
				sym_cover("attrs");
			} else {
				sym_assert(ec_strvec_set_attrs(v[k], idx, mkattr(nattr)) < 0, "attributes past the end are refused");
				sym_assert(ec_strvec_get_attrs(v[k], idx) == NULL, "no attributes past the end");
			}
			break;
		}
		for (i = 0; i < nv; i++)
			check(i);
		if (step == 1)
			sym_part();
	}
	/* release in either order; the others stay intact */
	if (nv > 1 && sym_choice(2, "order")) {
		ec_strvec_free(v[0]);
		for (i = 1; i < nv; i++)
			check(i);
		for (i = 1; i < nv; i++)
			ec_strvec_free(v[i]);
	} else
		for (i = nv; i-- > 0;) {
			check(i);
			ec_strvec_free(v[i]);
		}
	h_end();
}
void h_cmp(void)
{
	static char s[2][2][N + 1];
	struct ec_strvec *x[2];
	unsigned n[2], i, k;
	int eq;

	h_init();
	for (k = 0; k < 2; k++) {
		n[k] = sym_choice(3, "n");
		x[k] = ec_strvec();
		for (i = 0; i < n[k]; i++) {
			h_str(s[k][i], N, "s");
			sym_assert(ec_strvec_add(x[k], s[k][i]) == 0, "add succeeds");
		}
	}
	eq = n[0] == n[1];
	for (i = 0; eq && i < n[0]; i++)
		eq = strcmp(s[0][i], s[1][i]) == 0;
	sym_assert((ec_strvec_cmp(x[0], x[1]) == 0) == eq, "vectors compare equal exactly when they hold the same strings");
	sym_assert((ec_strvec_cmp(x[1], x[0]) == 0) == eq, "comparison is symmetric");
	if (eq)
		sym_cover("equal");
	else
		sym_cover("differ");
	ec_strvec_free(x[0]);
	ec_strvec_free(x[1]);
	h_end();
}
static int rcmp(const char *a, const char *b) { return (int)(unsigned char)*b - (int)(unsigned char)*a; }
void h_sort(void)
{
	static char s[N][2];
	struct ec_strvec *x, *y;
	unsigned n, i, j, seen = 0, custom = sym_choice(2, "custom");

	h_init();
	n = sym_choice(N + 1, "n");
	x = ec_strvec();
	for (i = 0; i < n; i++) {
		h_strn(s[i], 1, "s");
		sym_assert(ec_strvec_add(x, s[i]) == 0, "add succeeds");
		sym_assert(ec_strvec_set_attrs(x, i, mkattr(i + 1)) == 0, "attributes set");
	}
	y = ec_strvec_dup(x);
	ec_strvec_sort(x, custom ? rcmp : NULL);
	sym_assert(ec_strvec_len(x) == n, "sorting keeps the length");
	for (i = 0; i < n; i++) {
		const char *a = ec_strvec_val(x, i);
		j = attr_of(x, i) - 1;
		sym_assert(j < n && !(seen & (1u << j)), "sorting is a permutation");
		seen |= 1u << j;
		sym_assert(strcmp(a, s[j]) == 0, "an element keeps its attributes");
		if (i > 0)
			sym_assert(custom ? rcmp(ec_strvec_val(x, i - 1), a) <= 0 : strcmp(ec_strvec_val(x, i - 1), a) <= 0, "sorted");
		sym_assert(strcmp(ec_strvec_val(y, i), s[i]) == 0, "sorting leaves copies alone");
	}
	ec_strvec_free(x);
	ec_strvec_free(y);
	h_end();
}
void h_ndup(void)
{
	static char s[3][2];
	struct ec_strvec *x, *y;
	unsigned n = sym_choice(4, "n"), i;
	uint64_t off, len;

	h_init();
	x = ec_strvec();
	for (i = 0; i < n; i++) {
		h_strn(s[i], 1, "s");
		sym_assert(ec_strvec_add(x, s[i]) == 0, "add succeeds");
	}
	off = sym_u64("off");
	len = sym_u64("len");
	y = ec_strvec_ndup(x, off, len);
	sym_assert((y != NULL) == (off <= n && len <= n - off), "copy made exactly when the range lies in the vector");
	if (y == NULL)
		sym_cover("refused");
	else {
		sym_cover("copied");
		sym_assert(ec_strvec_len(y) == len, "length of the sub-range");
		for (i = 0; i < len; i++)
			sym_assert(strcmp(ec_strvec_val(y, i), s[off + i]) == 0, "elements of the sub-range");
	}
	sym_assert(ec_strvec_val(x, off) == (off < n ? ec_strvec_val(x, sym_concrete(off)) : NULL), "index past the end gives nothing");
	ec_strvec_free(y);
	ec_strvec_free(x);
	h_end();
}
static int memmem_(const char *h, size_t hl, const char *n, size_t nl)
{
	size_t i, j;
	int any = 0;
	for (i = 0; i + nl <= hl; i++) {
		int ok = 1;
		for (j = 0; j < nl; j++)
			ok &= h[i + j] == n[j];
		any |= ok;
	}
	return any;
}
void h_text(void)
{
	static char a[N + 1], b[N + 1];
	const char *arr[2] = { a, b };
	struct ec_strvec *x;
	char *buf = NULL;
	size_t bl = 0, la, lb;
	FILE *f;

	h_init();
	la = h_str(a, N, "a");
	lb = h_str(b, N, "b");
	x = ec_strvec_from_array(arr, 2);
	sym_assert(x != NULL && ec_strvec_len(x) == 2, "built from an array");
	sym_assert(strcmp(ec_strvec_val(x, 0), a) == 0 && strcmp(ec_strvec_val(x, 1), b) == 0, "elements of the array");
	sym_assert(ec_strvec_val(x, 0) != a, "strings are copied");
	f = open_memstream(&buf, &bl);
	ec_strvec_dump(f, x);
	fclose(f);
	sym_assert(bl >= la + lb && memmem_(buf, bl, a, la) && memmem_(buf, bl, b, lb), "dump shows the strings") ;
	free(buf);
	sym_assert(ec_strvec_set(x, 0, b) == 0 && strcmp(ec_strvec_val(x, 0), b) == 0, "set replaces");
	sym_assert(ec_strvec_set(x, 0, NULL) < 0 && ec_strvec_add(x, NULL) < 0 && ec_strvec_len(x) == 2, "NULL strings are refused");
	ec_strvec_free(x);
	x = EC_STRVEC(a, b, "x");
	sym_assert(x != NULL && ec_strvec_len(x) == 3 && strcmp(ec_strvec_val(x, 2), "x") == 0, "literal vector");
	ec_strvec_free(x);
	h_end();
}
/* longer vectors of longer strings, one change or any sub-range copied */
#ifndef BL
#define BL 12
#endif
void h_big(void)
{
	static char s[BL + 1][301];
	unsigned i, n = BL - sym_choice(2, "n"), pos, op, o;
	struct ec_strvec *x, *y, *z;
	static char nw[301];
	uint64_t off, len;

	h_init();
	for (i = 0; i < n; i++) {
		unsigned l = i == 2 ? 300 : i == 3 ? 256 : i == 4 ? 255 : i == 5 ? 64 : i;
		memset(s[i], 'A' + i, l);
		s[i][l] = 0;
	}
	pos = sym_choice(n, "pos");
	op = sym_choice(5, "op");
	sym_part();
	x = ec_strvec();
	for (i = 0; i < n; i++)
		sym_assert(ec_strvec_add(x, s[i]) == 0, "word added");
	y = ec_strvec_dup(x);
	sym_assert(y != NULL && ec_strvec_cmp(x, y) == 0, "a copy is equal");
	if (op == 0 && strlen(s[pos]) > 0 && sym_choice(2, "onebyte")) {
		/* one byte of the word changed, near one of its ends or in the middle */
		strcpy(nw, s[pos]);
		sym_assume((nw[sym_choice(3, "where") * (strlen(nw) - 1) / 2] = sym_u8("w")) != 0);
	} else
		h_str(nw, 2, "w");
	switch (op) {
	case 0:
		sym_assert(ec_strvec_set(x, pos, nw) == 0, "set succeeds");
		break;
	case 1:
		sym_assert(ec_strvec_add(x, nw) == 0, "add succeeds");
		break;
	case 2:
		sym_assert(ec_strvec_del_last(x) == 0, "deletion succeeds");
		break;
	case 3:
		ec_strvec_sort(x, NULL);
		break;
	}
	for (i = 0; i < n; i++)
		sym_assert(strcmp(ec_strvec_val(y, i), s[i]) == 0, "the copy is unchanged");
	sym_assert(ec_strvec_len(y) == n && ec_strvec_val(y, n) == NULL, "length of the copy");
	sym_assert(ec_strvec_len(x) == n + (op == 1) - (op == 2), "length");
	for (i = 0; i < ec_strvec_len(x); i++)
		sym_assert(strcmp(ec_strvec_val(x, i), op == 0 && i == pos ? nw : i == n ? nw : s[i]) == 0, "words in order");
	sym_assert((ec_strvec_cmp(x, y) == 0) == (op >= 3 || (op == 0 && strcmp(nw, s[pos]) == 0)), "equal exactly when all words are");
	off = len = 1;
	if (op == 4 && pos == 0) {
		off = sym_u64("off");
		len = sym_u64("len");
	}
	z = ec_strvec_ndup(x, off, len);
	sym_assert((z != NULL) == (off <= ec_strvec_len(x) && len <= ec_strvec_len(x) - off), "copy made exactly when the range lies in the vector");
	o = sym_choice(2, "order");
	ec_strvec_free(o ? x : y);
	if (z != NULL) {
		off = sym_concrete(off);
		len = sym_concrete(len);
		sym_assert(ec_strvec_len(z) == len, "length of the range");
		for (i = 0; i < len; i++)
			sym_assert(strcmp(ec_strvec_val(z, i), (op == 0 && off + i == pos) || off + i == n ? nw : s[off + i]) == 0, "words of the range");
		ec_strvec_free(z);
	}
	ec_strvec_free(o ? y : x);
	h_end();
}
/* many copies of one vector; attributes taken away again */
void h_many(void)
{
	static const unsigned counts[] = { 1, 2, 16, 127, 128, 255, 256, 257, 300 };
	static struct ec_strvec *cp[300];
	unsigned n = counts[sym_choice(9, "n")], i, j, at, keep, none;
	struct ec_strvec *x;
	char a[2], b[2];

	h_init();
	h_strn(a, 1, "a");
	h_strn(b, 1, "b");
	keep = sym_choice(3, "keep");
	at = sym_choice(2, "at");
	none = sym_choice(2, "none");
	sym_part();
	x = ec_strvec();
	sym_assert(ec_strvec_add(x, a) == 0 && ec_strvec_add(x, "y") == 0, "add succeeds");
	sym_assert(ec_strvec_set_attrs(x, 1, mkattr(7)) == 0, "attributes set");
	for (i = 0; i < n; i++) /* copies of the vector, or of the last copy */
		sym_assert((cp[i] = ec_strvec_dup(i % 2 ? cp[i - 1] : x)) != NULL, "copy made");
	/* the original changes: the copies do not */
	if (at == 0)
		sym_assert(ec_strvec_set(x, 0, b) == 0, "set succeeds");
	sym_assert(ec_strvec_set_attrs(x, 1, none ? NULL : mkattr(9)) == 0, "attributes replaced or taken away");
	sym_assert(attr_of(x, 1) == (none ? 0 : 9) && !strcmp(ec_strvec_val(x, 1), "y"), "attributes of the original");
	sym_assert(!strcmp(ec_strvec_val(x, 0), at == 0 ? b : a), "word of the original");
	if (sym_choice(2, "drop"))
		ec_strvec_free(x), x = NULL;
	/* all copies but one are released */
	keep = keep == 0 ? 0 : keep == 1 ? n - 1 : n / 2;
	for (j = 0; j < n; j++) {
		i = at ? j : n - 1 - j;
		if (i != keep)
			ec_strvec_free(cp[i]);
	}
	sym_assert(ec_strvec_len(cp[keep]) == 2 && !strcmp(ec_strvec_val(cp[keep], 0), a) && !strcmp(ec_strvec_val(cp[keep], 1), "y"), "the copy is unchanged");
	sym_assert(attr_of(cp[keep], 1) == 7 && attr_of(cp[keep], 0) == 0, "attributes of the copy");
	/* the last user: attributes set, taken away, set again */
	sym_assert(ec_strvec_set_attrs(cp[keep], at, mkattr(3)) == 0 && attr_of(cp[keep], at) == 3, "attributes set");
	sym_assert(ec_strvec_set_attrs(cp[keep], at, NULL) == 0 && ec_strvec_get_attrs(cp[keep], at) == NULL, "attributes taken away");
	if (none)
		sym_assert(ec_strvec_set_attrs(cp[keep], at, mkattr(4)) == 0 && attr_of(cp[keep], at) == 4, "attributes set again");
	sym_assert(attr_of(cp[keep], !at) == (at ? 0 : 7), "attributes of the other element");
	ec_strvec_free(cp[keep]);
	ec_strvec_free(x);
	h_end();
}
