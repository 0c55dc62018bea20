/* P12: generic vectors */
#include "harness.h"
#ifndef OPS
#define OPS 3
#endif
static long copies, frees;
static unsigned esz;
static void cpy(void *d, void *s) { copies++; memcpy(d, s, esz); }
static void rel(void *p) { (void)p; frees++; }
static struct ec_vec *v[3];
static uint64_t r[3][8];
static unsigned n[3], nv;
static uint64_t mask(uint64_t x) { return esz == 8 ? x : x & ((1ull << (8 * esz)) - 1); }

static int add(struct ec_vec *x, unsigned sz, uint64_t val)
{
	switch (sz) {
	case 1: return ec_vec_add_u8(x, (uint8_t)val);
	case 2: return ec_vec_add_u16(x, (uint16_t)val);
	case 4: return ec_vec_add_u32(x, (uint32_t)val);
	case 8: return ec_vec_add_u64(x, val);
	default: return ec_vec_add_ptr(x, (void *)(uintptr_t)val);
	}
}
static void check(unsigned k)
{
	unsigned i;
	uint64_t x;

	sym_assert(ec_vec_len(v[k]) == n[k], "length");
	for (i = 0; i < n[k]; i++) {
		x = 0;
		sym_assert(ec_vec_get(&x, v[k], i) == 0 && x == r[k][i], "element in order");
	}
	sym_assert(ec_vec_get(&x, v[k], n[k]) < 0 && ec_vec_get(&x, v[k], (size_t)-1) < 0, "index past the end refused");
}
void h_hist(void)
{
	static const unsigned char sz[] = { 1, 2, 4, 8 };
	unsigned step, k, i, cb, wrong, total = 0;
	uint64_t val, off, len;
	struct ec_vec *c;

	h_init();
	esz = sz[sym_choice(4, "size")];
	cb = sym_choice(2, "callbacks");
	v[0] = ec_vec(esz, sym_choice(2, "initial") * 3, cb ? cpy : NULL, cb ? rel : NULL);
	sym_assert(v[0] != NULL && ec_vec_len(v[0]) == 0, "vector created");
	nv = 1;
	sym_part();
	for (step = 0; step < OPS; step++) {
		k = sym_choice(nv, "vec");
		if (sym_choice(2, "op") == 0) {
			val = sym_u64("val");
			wrong = esz == 1 ? 2 : esz == 2 ? 4 : esz == 4 ? 8 : 1;
			sym_assert(add(v[k], wrong, val) < 0, "append of another size refused");
			sym_assert(add(v[k], esz == 8 && sym_choice(2, "ptr") ? 0 : esz, val) == 0, "append succeeds");
			r[k][n[k]++] = mask(val);
			total++;
		} else {
			if (nv == 3)
				sym_stop();
			off = sym_u64("off");
			len = sym_u64("len");
			copies = 0;
			c = ec_vec_ndup(v[k], off, len);
			sym_assert((c != NULL) == (off <= n[k] && len <= n[k] - off), "copy made exactly when the range lies in the vector");
			if (c == NULL) {
				sym_assert(copies == 0, "nothing copied when refused");
				sym_cover("refused");
			} else {
				off = sym_concrete(off);
				len = sym_concrete(len);
				sym_assert(copies == (cb ? (long)len : 0), "each element copied once");
				for (i = 0; i < len; i++)
					r[nv][i] = r[k][off + i];
				n[nv] = len;
				v[nv++] = c;
				sym_cover("copied");
			}
		}
		for (i = 0; i < nv; i++)
			check(i);
	}
	sym_assert(frees == 0, "nothing released early");
	for (i = 0; i < nv; i++) {
		frees = 0;
		ec_vec_free(v[i]);
		sym_assert(frees == (cb ? (long)n[i] : 0), "each element released once");
		for (k = i + 1; k < nv; k++)
			check(k);
	}
	h_end();
}
void h_elt(void)
{
	static unsigned char a[3][9], out[11];
	unsigned i, j, cnt;
	struct ec_vec *x, *y;
	uint64_t idx;

	h_init();
	esz = sym_choice(10, "size");
	x = ec_vec(esz, sym_choice(4, "initial"), NULL, NULL);
	sym_assert((x == NULL) == (esz == 0), "elements of no size refused");
	if (x == NULL) {
		h_end();
		return;
	}
	cnt = sym_choice(4, "n");
	for (i = 0; i < cnt; i++) {
		sym_bytes(a[i], esz, "e");
		sym_assert(ec_vec_add_by_ref(x, a[i]) == 0, "append succeeds");
	}
	idx = sym_u64("idx");
	out[esz] = 0x5a;
	j = ec_vec_get(out, x, idx) == 0;
	sym_assert(j == (idx < cnt), "reads exactly the valid indexes");
	if (j)
		sym_assert(memcmp(out, a[idx], esz) == 0, "element read back");
	sym_assert(out[esz] == 0x5a, "reads only one element");
	y = ec_vec_dup(x);
	sym_assert(y != NULL && ec_vec_len(y) == cnt, "copy made");
	ec_vec_free(x);
	for (i = 0; i < cnt; i++)
		sym_assert(ec_vec_get(out, y, i) == 0 && memcmp(out, a[i], esz) == 0, "copy survives the original");
	ec_vec_free(y);
	sym_assert(ec_vec_len(NULL) == 0 && ec_vec_get(out, NULL, 0) < 0, "no vector");
	ec_vec_free(NULL);
	h_end();
}
/* longer vectors: N elements of any size up to 9 or 40 bytes, one of them symbolic, any sub-range copied */
#ifndef N
#define N 20
#endif
void h_big(void)
{
	static unsigned char e[N + 1][40], out[41];
	static const unsigned char sz[] = { 1, 3, 8, 9, 16, 40 };
	unsigned i, cnt, pos, cb;
	uint64_t off, len;
	struct ec_vec *x, *y;

	h_init();
	esz = sz[sym_choice(6, "size")];
	cb = sym_choice(2, "callbacks");
	cnt = N - sym_choice(3, "n");
	x = ec_vec(esz, sym_choice(2, "initial") * 5, cb ? cpy : NULL, cb ? rel : NULL);
	sym_assert(x != NULL, "vector created");
	pos = sym_choice(2, "pos") ? cnt - 1 : cnt / 2;
	sym_part();
	for (i = 0; i < cnt; i++) {
		memset(e[i], i + 1, esz);
		if (i == pos)
			sym_bytes(e[i], esz, "e");
		sym_assert(ec_vec_add_by_ref(x, e[i]) == 0, "append succeeds");
	}
	sym_assert(ec_vec_len(x) == cnt, "length");
	off = sym_u64("off");
	len = sym_u64("len");
	copies = 0;
	y = ec_vec_ndup(x, off, len);
	sym_assert((y != NULL) == (off <= cnt && len <= cnt - off), "copy made exactly when the range lies in the vector");
	for (i = 0; i < cnt; i++)
		sym_assert(ec_vec_get(out, x, i) == 0 && memcmp(out, e[i], esz) == 0, "the original is unchanged");
	frees = 0;
	ec_vec_free(x);
	sym_assert(frees == (cb ? (long)cnt : 0), "each element released once");
	if (y != NULL) {
		off = sym_concrete(off);
		len = sym_concrete(len);
		sym_assert(copies == (cb ? (long)len : 0) && ec_vec_len(y) == len, "each element copied once");
		for (i = 0; i < len; i++)
			sym_assert(ec_vec_get(out, y, i) == 0 && memcmp(out, e[off + i], esz) == 0, "element in order");
		sym_assert(ec_vec_get(out, y, len) < 0, "index past the end refused");
		sym_assert(ec_vec_add_by_ref(y, e[pos]) == 0 && ec_vec_get(out, y, len) == 0 && memcmp(out, e[pos], esz) == 0, "the copy can grow");
		frees = 0;
		ec_vec_free(y);
		sym_assert(frees == (cb ? (long)len + 1 : 0), "each element released once");
	}
	h_end();
}
/* many appends, each read back; the copy grows too */
void h_grow(void)
{
	static unsigned char e[40], out[41];
	static const unsigned char sz[] = { 1, 2, 8, 24, 40 };
	static const unsigned counts[] = { 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258 };
	unsigned i, cnt, cb, off, more;
	struct ec_vec *x, *y;

	h_init();
	esz = sz[sym_choice(5, "size")];
	cb = sym_choice(2, "callbacks");
	cnt = counts[sym_choice(20, "n")];
	off = sym_choice(4, "off");
	off = off == 0 ? 0 : off == 1 ? 1 : off == 2 ? cnt / 2 : cnt;
	more = sym_choice(2, "more") * 40;
	sym_part();
	x = ec_vec(esz, sym_choice(3, "initial") * 16, cb ? cpy : NULL, cb ? rel : NULL);
	sym_assert(x != NULL, "vector created");
	for (i = 0; i < cnt; i++) {
		memset(e, i * 7 + 1, esz);
		sym_assert(ec_vec_add_by_ref(x, e) == 0, "append succeeds");
	}
	copies = 0;
	y = ec_vec_ndup(x, off, cnt - off);
	sym_assert(y != NULL && copies == (cb ? (long)(cnt - off) : 0) && ec_vec_len(y) == cnt - off, "each element copied once");
	for (i = 0; i < more; i++) {
		memset(e, (cnt + i) * 7 + 1, esz);
		sym_assert(ec_vec_add_by_ref(y, e) == 0, "append to the copy succeeds");
	}
	sym_assert(ec_vec_len(x) == cnt, "the original is unchanged");
	for (i = 0; i < cnt; i++) {
		memset(e, i * 7 + 1, esz);
		sym_assert(ec_vec_get(out, x, i) == 0 && memcmp(out, e, esz) == 0, "element in order");
	}
	frees = 0;
	ec_vec_free(x);
	sym_assert(frees == (cb ? (long)cnt : 0), "each element released once");
	sym_assert(ec_vec_len(y) == cnt - off + more, "length of the copy");
	for (i = 0; i < cnt - off + more; i++) {
		memset(e, (off + i) * 7 + 1, esz);
		sym_assert(ec_vec_get(out, y, i) == 0 && memcmp(out, e, esz) == 0, "element of the copy in order");
	}
	frees = 0;
	ec_vec_free(y);
	sym_assert(frees == (cb ? (long)(cnt - off + more) : 0), "each element released once");
	h_end();
}
