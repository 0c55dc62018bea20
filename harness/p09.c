/* P09: hash tables and dictionaries as maps; P10: their copies */
#include "harness.h"
#ifndef KR
#define KR 4
#endif
#ifndef PRE
#define PRE 1
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef BIG
#define BIG 20
#endif
#define MAXV (BIG + 12)
#define MAXE (BIG + 4)
/* a value is a counter of how many times it was released */
static unsigned vals[MAXV];
static unsigned nvals;
static void rel(void *v) { if (v) (*(unsigned *)v)++; }

struct ent { const char *key; size_t len; unsigned *val; int cb; };
struct ref { struct ent e[MAXE]; unsigned n; };
static unsigned refs[MAXV]; /* how many reference maps hold the value */

static int r_find(const struct ref *r, const char *key, size_t len)
{
	unsigned i;
	for (i = 0; i < r->n; i++)
		if (r->e[i].len == len && memcmp(r->e[i].key, key, len) == 0)
			return i;
	return -1;
}
static void r_drop(struct ref *r, int i)
{
	unsigned j;
	if (r->e[i].val != NULL)
		refs[r->e[i].val - vals]--;
	for (j = i; j + 1 < r->n; j++)
		r->e[j] = r->e[j + 1];
	r->n--;
}
static void r_set(struct ref *r, const char *key, size_t len, unsigned *val)
{
	int i = r_find(r, key, len);
	if (i >= 0)
		r_drop(r, i);
	r->e[r->n].key = key;
	r->e[r->n].len = len;
	r->e[r->n].val = val;
	r->n++;
	if (val)
		refs[val - vals]++;
}
static int isdict;
static int t_set(void *t, const char *k, size_t n, void *v)
{
	return isdict ? ec_dict_set(t, k, v, rel) : ec_htable_set(t, k, n, v, rel);
}
static int t_del(void *t, const char *k, size_t n) { return isdict ? ec_dict_del(t, k) : ec_htable_del(t, k, n); }
static void *t_get(void *t, const char *k, size_t n) { return isdict ? ec_dict_get(t, k) : ec_htable_get(t, k, n); }
static int t_has(void *t, const char *k, size_t n) { return isdict ? ec_dict_has_key(t, k) : ec_htable_has_key(t, k, n); }
static size_t t_len(void *t) { return isdict ? ec_dict_len(t) : ec_htable_len(t); }
static void t_free(void *t) { if (isdict) ec_dict_free(t); else ec_htable_free(t); }
static void *t_dup(void *t) { return isdict ? (void *)ec_dict_dup(t) : (void *)ec_htable_dup(t); }

/* the table holds exactly the pairs of r, in order */
static void t_check(void *t, const struct ref *r)
{
	unsigned i = 0;

	sym_assert(t_len(t) == r->n, "size is the number of keys");
	if (isdict) {
		struct ec_dict_elt_ref *it;
		for (it = ec_dict_iter(t); it != NULL; it = ec_dict_iter_next(it), i++) {
			sym_assert(i < r->n, "iteration visits no more than the pairs");
			sym_assert(strcmp(ec_dict_iter_get_key(it), r->e[i].key) == 0, "iteration yields the keys in order");
			sym_assert(ec_dict_iter_get_val(it) == (void *)r->e[i].val, "iteration yields the values");
		}
	} else {
		struct ec_htable_elt_ref *it;
		for (it = ec_htable_iter(t); it != NULL; it = ec_htable_iter_next(it), i++) {
			sym_assert(i < r->n, "iteration visits no more than the pairs");
			sym_assert(ec_htable_iter_get_key_len(it) == r->e[i].len, "iteration yields the key lengths");
			sym_assert(memcmp(ec_htable_iter_get_key(it), r->e[i].key, r->e[i].len) == 0, "iteration yields the keys in order");
			sym_assert(ec_htable_iter_get_val(it) == (void *)r->e[i].val, "iteration yields the values");
		}
	}
	sym_assert(i == r->n, "iteration visits every pair");
}
static void t_probe(void *t, const struct ref *r, const char *k, size_t n)
{
	int i = r_find(r, k, n);

	sym_assert(t_has(t, k, n) == (i >= 0), "a key is present exactly when set and not deleted since");
	errno = 99;
	sym_assert(t_get(t, k, n) == (i >= 0 ? (void *)r->e[i].val : NULL), "lookup returns the last value set");
	if (i < 0)
		sym_assert(errno == ENOENT, "lookup of a missing key reports it");
	else if (r->e[i].val == NULL)
		sym_assert(errno == 0, "lookup of a NULL value clears errno");
}
static void v_check(void)
{
	unsigned i;
	for (i = 0; i < nvals; i++)
		sym_assert(vals[i] == (refs[i] == 0), "a value is released exactly once, when its last holder drops it");
}
/* keys: FIX concrete ones filling the table, then symbolic one-byte keys */
static const char *fixed[] = { "k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "ka", "kb", "kc", "kd", "ke", "kf", "kg" };
static char keys[4][4];
#ifdef ENV_HASH_H
/* a hash value per key: arbitrary, placed in one of three buckets of the larger table, two of which are the same
 * bucket of the smaller one */
static struct { char k[4]; int len; uint32_t h; } hashed[8];
static unsigned nhashed;
uint32_t h_hash(const void *key, int len, uint32_t seed)
{
	const char *k = key;
	unsigned i;
	uint32_t h;

	(void)seed;
	if (len <= 2) {
		for (i = 0; i < nhashed; i++)
			if (hashed[i].len == len && !memcmp(hashed[i].k, key, len))
				return hashed[i].h;
		sym_assert(nhashed < 8, "bounded");
		h = sym_u32("hash");
		sym_assume((h & 15) == 5 || (h & 15) == 13 || (h & 15) == 6);
		memcpy(hashed[nhashed].k, key, len);
		hashed[nhashed].len = len;
		hashed[nhashed].h = h;
		return hashed[nhashed++].h;
	}
	h = 5; /* the others: any fixed function */
	for (i = 0; i < (unsigned)len; i++)
		h += (unsigned char)k[i];
	return h;
}
#endif

static void op(void *t, struct ref *r, unsigned nk)
{
	unsigned o = sym_choice(3, "op"), k = sym_choice(nk, "key");
	const char *key = keys[k];
	size_t len = strlen(key) + 1;
	unsigned *v;

	switch (o) {
	case 0:
		v = &vals[nvals++];
		sym_assert(t_set(t, key, len, v) == 0, "set succeeds");
		r_set(r, key, len, v);
		sym_cover("set");
		break;
	case 1: {
		int i = r_find(r, key, len);
		sym_assert((t_del(t, key, len) == 0) == (i >= 0), "delete succeeds exactly on present keys");
		if (i >= 0) {
			r_drop(r, i);
			sym_cover("del");
		}
		break;
	}
	default:
		sym_assert(t_set(t, key, len, NULL) == 0, "set of a NULL value succeeds");
		r_set(r, key, len, NULL);
	}
	for (k = 0; k < nk; k++)
		t_probe(t, r, keys[k], strlen(keys[k]) + 1);
	t_check(t, r);
	v_check();
}
static void fill(void *t, struct ref *r, unsigned n)
{
	unsigned i;
	for (i = 0; i < n; i++) {
		unsigned *v = &vals[nvals++];
		sym_assert(t_set(t, fixed[i], 3, v) == 0, "set succeeds");
		r_set(r, fixed[i], 3, v);
	}
}
static void mkkeys(int symb)
{
	unsigned i;
	if (symb) {
		for (i = 0; i < 2; i++) {
			h_strn(keys[i], 1, "key");
			sym_assume(keys[i][0] >= 'a' && keys[i][0] < 'a' + KR);
		}
		return;
	}
	/* concrete keys: the empty one (dict only), one overlapping the fixed ones, two others */
	strcpy(keys[0], isdict ? "" : "z");
	strcpy(keys[1], "k3");
	strcpy(keys[2], "y");
}
/* histories over concrete keys, with tables about to grow */
void h_hist(void)
{
	static const unsigned char fills[] = { 0, 7, 8 };
	static struct ref r;
	unsigned i;
	void *t;

	h_init();
	isdict = sym_choice(2, "dict");
	t = isdict ? (void *)ec_dict() : (void *)ec_htable();
	sym_assert(t != NULL, "table created");
	mkkeys(0);
	fill(t, &r, fills[sym_choice(3, "fill")]);
	op(t, &r, 3);
	sym_part();
	for (i = 1; i < OPS; i++)
		op(t, &r, 3);
	for (i = 0; i < 9; i++)
		t_probe(t, &r, fixed[i], 3);
	t_free(t);
	for (i = 0; i < nvals; i++)
		sym_assert(vals[i] == 1, "every value is released once in total");
	h_end();
}
/* histories over two keys with symbolic bytes (equal, colliding or neither) */
void h_sym(void)
{
	static struct ref r;
	unsigned i;
	void *t;

	h_init();
	t = ec_htable();
	mkkeys(1);
	for (i = 0; i < OPS; i++) {
		op(t, &r, 2);
		if (i == 0)
			sym_part();
	}
	t_free(t);
	for (i = 0; i < nvals; i++)
		sym_assert(vals[i] == 1, "every value is released once in total");
	h_end();
}
/* binary keys of a hash table: length matters, NUL bytes do not */
void h_binkey(void)
{
	static char a[2], b[2];
	struct ec_htable *t;
	size_t la, lb;
	int eq;

	h_init();
	t = ec_htable();
	la = 1 + sym_choice(2, "la");
	lb = 1 + sym_choice(2, "lb");
	sym_part();
	sym_bytes(a, la, "a");
	sym_bytes(b, lb, "b");
	sym_assume((unsigned char)a[0] < KR && (unsigned char)a[1] < 2 && (unsigned char)b[0] < KR && (unsigned char)b[1] < 2);
	eq = la == lb && memcmp(a, b, la) == 0;
	sym_assert(ec_htable_set(t, a, la, &vals[0], rel) == 0, "set succeeds");
	sym_assert(ec_htable_has_key(t, b, lb) == eq, "keys are the same exactly when their bytes and lengths are");
	sym_assert(ec_htable_get(t, b, lb) == (eq ? (void *)&vals[0] : NULL), "lookup by bytes and length");
	sym_assert(ec_htable_set(t, b, lb, &vals[1], rel) == 0, "set succeeds");
	sym_assert(ec_htable_len(t) == (eq ? 1 : 2), "overwriting keeps the size");
	sym_assert(vals[0] == (unsigned)eq && vals[1] == 0, "overwritten value released once");
	sym_assert((ec_htable_del(t, a, la) == 0), "delete succeeds");
	sym_assert(vals[0] == 1 && vals[1] == (unsigned)eq, "deleted value released once");
	ec_htable_free(t);
	sym_assert(vals[0] == 1 && vals[1] == 1, "all released once");
	/* refused arguments consume the value */
	t = ec_htable();
	sym_assert(ec_htable_set(t, a, 0, &vals[2], rel) < 0 && errno == EINVAL, "empty key refused");
	sym_assert(vals[2] == 1, "value of a refused set is released");
	sym_assert(ec_htable_set(t, NULL, 1, &vals[3], rel) < 0 && vals[3] == 1, "NULL key refused, value released");
	sym_assert(ec_htable_len(t) == 0, "refused set changes nothing");
	sym_assert(ec_htable_del(t, a, la) < 0, "delete from an empty table fails");
	ec_htable_free(t);
	sym_assert(ec_htable_has_key(NULL, a, la) == 0, "no table, no key");
	sym_assert(ec_htable_set(NULL, a, la, &vals[4], rel) < 0 && vals[4] == 1, "no table, value released");
	sym_assert(ec_htable_get(NULL, a, la) == NULL && ec_htable_del(NULL, a, la) < 0, "no table, no value");
	ec_htable_free(NULL);
	h_end();
}
#ifndef NKEY
#define NKEY 2
#endif
/* P10: copies */
static void dup(int symb)
{
#ifdef ENV_HASH_H
	static const unsigned char fills[] = { 0, 8, 8 };
	symb |= 2;
#else
	static const unsigned char fills[] = { 0, 2, 8 };
#endif
	static struct ref r[3];
	void *t[3] = { 0 };
	unsigned i, j, n = 2, order, nk = symb ? NKEY : 3;

	h_init();
	isdict = sym_choice(2, "dict");
	t[0] = isdict ? (void *)ec_dict() : (void *)ec_htable();
	mkkeys(symb & 1);
	fill(t[0], &r[0], fills[sym_choice(symb ? 2 : 3, "fill")]);
	if (symb == 1)
		sym_part();
	for (i = 0; i < PRE; i++) {
		op(t[0], &r[0], nk);
		if (i == 0 && symb != 1)
			sym_part();
	}
	t[1] = t_dup(t[0]);
	sym_assert(t[1] != NULL, "copy made");
	r[1] = r[0];
	for (i = 0; i < r[1].n; i++)
		if (r[1].e[i].val)
			refs[r[1].e[i].val - vals]++;
	t_check(t[1], &r[1]);
	for (i = 0; i < OPS; i++) {
		j = sym_choice(2, "which");
		op(t[j], &r[j], nk);
		for (j = 0; j < n; j++)
			t_check(t[j], &r[j]);
	}
	order = sym_choice(2, "order");
	t_free(t[order]);
	while (r[order].n)
		r_drop(&r[order], 0);
	v_check();
	t_check(t[!order], &r[!order]);
	t_free(t[!order]);
	for (i = 0; i < nvals; i++)
		sym_assert(vals[i] == 1, "every value is released once in total");
	h_end();
}
void h_dup(void)
{
	dup(0);
}
/* the same with keys of symbolic bytes */
void h_dupsym(void)
{
	dup(1);
}
/* chains of copies: a value is released once after every holder is gone */
void h_chain(void)
{
	static struct ref r[3];
	void *t[3];
	unsigned i, j, k, left = 7;

	h_init();
	isdict = sym_choice(2, "dict");
	t[0] = isdict ? (void *)ec_dict() : (void *)ec_htable();
	mkkeys(0);
	fill(t[0], &r[0], 2);
	for (k = 1; k < 3; k++) {
		j = k == 2 ? sym_choice(2, "src") : 0;
		t[k] = t_dup(t[j]);
		sym_assert(t[k] != NULL, "copy made");
		r[k] = r[j];
		for (i = 0; i < r[k].n; i++)
			if (r[k].e[i].val)
				refs[r[k].e[i].val - vals]++;
		j = sym_choice(k + 1, "which");
		op(t[j], &r[j], 2);
		for (j = 0; j <= k; j++)
			t_check(t[j], &r[j]);
	}
	while (left) {
		j = sym_choice(3, "free");
		if (!(left & (1u << j)))
			sym_stop();
		left &= ~(1u << j);
		t_free(t[j]);
		while (r[j].n)
			r_drop(&r[j], 0);
		v_check();
	}
	h_end();
}
/* large tables: several growths, one change anywhere, with or without a copy before it */
void h_big(void)
{
	static struct ref r[2];
	static char ks[BIG + 2][24];
	static const unsigned sizes[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129 };
	unsigned i, n, x, o, copy, j;
	void *t[2] = { 0 };

	h_init();
	isdict = sym_choice(2, "dict");
	n = sizes[sym_choice(sizeof(sizes) / sizeof(sizes[0]), "size")];
	if (n > BIG)
		sym_stop();
	copy = sym_choice(3, "copy"); /* 0: none, 1: the copy is changed, 2: the original is */
	o = sym_choice(3, "op");
	sym_part();
	t[0] = isdict ? (void *)ec_dict() : (void *)ec_htable();
	for (i = 0; i <= n; i++)
		snprintf(ks[i], sizeof(ks[i]), i % 3 ? "k%d" : "a longer key, %d", i);
	for (i = 0; i < n; i++) {
		unsigned *v = &vals[nvals++];
		sym_assert(t_set(t[0], ks[i], strlen(ks[i]) + 1, v) == 0, "set succeeds");
		r[0].e[r[0].n].key = ks[i];
		r[0].e[r[0].n].len = strlen(ks[i]) + 1;
		r[0].e[r[0].n++].val = v;
		refs[v - vals]++;
	}
	t_check(t[0], &r[0]);
	if (copy) {
		t[1] = t_dup(t[0]);
		sym_assert(t[1] != NULL, "copy made");
		r[1] = r[0];
		for (i = 0; i < r[1].n; i++)
			refs[r[1].e[i].val - vals]++;
	}
	j = copy == 1;
	x = sym_choice(5, "which");
	x = x == 0 ? 0 : x == 1 ? 1 : x == 2 ? n / 2 : x == 3 ? n - 1 : n;
	if (o == 0) {
		unsigned *v = &vals[nvals++];
		sym_assert(t_set(t[j], ks[x], strlen(ks[x]) + 1, v) == 0, "set succeeds");
		r_set(&r[j], ks[x], strlen(ks[x]) + 1, v);
	} else if (o == 1) {
		sym_assert((t_del(t[j], ks[x], strlen(ks[x]) + 1) == 0) == (x < n), "delete succeeds exactly on present keys");
		if (x < n)
			r_drop(&r[j], r_find(&r[j], ks[x], strlen(ks[x]) + 1));
	} else {
		sym_assert(t_set(t[j], ks[x], strlen(ks[x]) + 1, NULL) == 0, "set of a NULL value succeeds");
		r_set(&r[j], ks[x], strlen(ks[x]) + 1, NULL);
	}
	v_check();
	for (j = 0; j < 1 + (copy > 0); j++) {
		t_check(t[j], &r[j]);
		for (i = 0; i <= n; i++)
			t_probe(t[j], &r[j], ks[i], strlen(ks[i]) + 1);
	}
	j = copy && sym_choice(2, "order");
	t_free(t[j]);
	while (r[j].n)
		r_drop(&r[j], r[j].n - 1);
	v_check();
	if (copy)
		t_free(t[!j]);
	for (i = 0; i < nvals; i++)
		sym_assert(vals[i] == 1, "every value is released once in total");
	h_end();
}
/* long keys: two keys of n bytes of which one byte, or the length, differs */
void h_longkey(void)
{
	static const unsigned lens[] = { 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300 };
	static char a[304], b[304];
	unsigned n, na, nb, where, pos;
	int eq;
	void *t, *d;

	h_init();
	isdict = sym_choice(2, "dict");
	n = lens[sym_choice(sizeof(lens) / sizeof(lens[0]), "len")];
	where = sym_choice(7, "where");
	pos = where == 0 ? 0 : where == 1 ? 1 : where == 2 ? n / 2 : where == 3 ? n - 2 : n - 1;
	memset(a, 'k', n);
	memset(b, 'k', n);
	na = nb = n;
	if (where < 5)
		b[pos] = 'z';
	else if (where == 5)
		b[nb++] = 'k';
	eq = where == 6;
	na += isdict;
	nb += isdict;
	t = isdict ? (void *)ec_dict() : (void *)ec_htable();
	sym_assert(t_set(t, a, na, &vals[0]) == 0, "set succeeds");
	sym_assert(t_has(t, a, na) && t_get(t, a, na) == &vals[0], "the key is found");
	sym_assert(t_has(t, b, nb) == eq && t_get(t, b, nb) == (eq ? (void *)&vals[0] : NULL), "keys are the same exactly when their bytes and lengths are");
	sym_assert(t_set(t, b, nb, &vals[1]) == 0 && t_len(t) == (eq ? 1 : 2), "set adds or overwrites");
	sym_assert(vals[0] == (unsigned)eq && vals[1] == 0, "overwritten value released once");
	d = t_dup(t);
	sym_assert(d != NULL && t_get(d, b, nb) == &vals[1] && t_get(d, a, na) == (eq ? &vals[1] : &vals[0]), "the copy has the same entries");
	sym_assert(t_del(t, b, nb) == 0 && !t_has(t, b, nb) && t_has(t, a, na) == !eq, "delete removes that key only");
	sym_assert(vals[1] == 0 && t_has(d, b, nb), "the copy keeps its value");
	t_free(t);
	t_free(d);
	sym_assert(vals[0] == 1 && vals[1] == 1, "all released once");
	h_end();
}
