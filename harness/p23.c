/* P23: string helpers */
#include "harness.h"
#include "num.h"
#include <stdarg.h>
#ifndef N
#define N 3
#endif
void h_prefix(void)
{
	static char a[N + 1], b[N + 1];
	size_t la, lb, i, c;
	int sp = 1;

	h_init();
	la = h_str(a, N, "a");
	lb = h_str(b, N, "b");
	c = ec_strcmp_count(a, b);
	for (i = 0; i < la && i < lb && a[i] == b[i]; i++)
		;
	sym_assert(c == i, "common prefix length");
	sym_observe("c", c);
	sym_assert((ec_str_startswith(a, b) != 0) == (lb <= la && memcmp(a, b, lb <= la ? lb : 0) == 0), "prefix test");
	for (i = 0; i < la; i++)
		sp = sp && (a[i] == ' ' || (a[i] >= 9 && a[i] <= 13));
	sym_assert(ec_str_is_space(a) == sp, "blank detection");
	h_end();
}
static const unsigned bases[] = { 0, 10, 16, 1, 37, 36 };
void h_num(void)
{
	static char w[N + 1];
	int sgn = sym_choice(2, "signed"), b = sym_choice(6, "base"), r, ok;
	uint64_t min, max, uv = 0, ug = 0;
	int64_t iv = 0, ig = 0;
	int e = 0;

	h_init();
	sym_part();
	h_str(w, N, "w");
	num_limits(&min, &max);
	errno = 1234;
	if (sgn) {
		ok = num_signed(w, bases[b], &iv) == 0 && iv >= (int64_t)min && iv <= (int64_t)max;
		r = ec_str_parse_llint(w, bases[b], (int64_t)min, (int64_t)max, &ig);
		e = errno;
		sym_assert((r == 0) == ok && (r == 0 || r == -1), "accepts exactly the in-range numerals");
		if (ok)
			sym_assert(ig == iv, "stores the value");
	} else {
		ok = num_unsigned(w, bases[b], &uv) == 0 && uv >= min && uv <= max;
		r = ec_str_parse_ullint(w, bases[b], min, max, &ug);
		e = errno;
		sym_assert((r == 0) == ok && (r == 0 || r == -1), "accepts exactly the in-range numerals");
		if (ok)
			sym_assert(ug == uv, "stores the value");
	}
	sym_observe("r", r);
	if (!ok)
		sym_assert(e == EINVAL || e == ERANGE, "rejection sets errno");
	if (ok)
		sym_cover("accepted");
	h_end();
}
/* formatting: text equals the pieces, for any argument values */
static int vfmt(char **s, const char *f, ...)
{
	va_list ap;
	int r;
	va_start(ap, f);
	r = ec_vasprintf(s, f, ap);
	va_end(ap);
	return r;
}
void h_fmt(void)
{
	static char a[N + 1], exp[64];
	char *s = NULL;
	size_t n, k;
	int r, f = sym_choice(4, "format"), viav = sym_choice(2, "va");
	unsigned char c;

	h_init();
	n = h_str(a, N, "a");
	c = sym_u8("c");
	sym_assume(c != 0);
	exp[0] = '<';
	switch (f) {
	case 0:
		memcpy(exp + 1, a, n);
		k = n + 1;
		exp[k++] = '>';
		r = viav ? vfmt(&s, "<%s>", a) : ec_asprintf(&s, "<%s>", a);
		break;
	case 1:
		exp[1] = c;
		memcpy(exp + 2, a, n);
		k = n + 2;
		r = viav ? vfmt(&s, "<%c%s", c, a) : ec_asprintf(&s, "<%c%s", c, a);
		break;
	case 2:
		exp[1] = '0' + c / 100;
		exp[2] = '0' + c / 10 % 10;
		exp[3] = '0' + c % 10;
		k = 4;
		r = viav ? vfmt(&s, "<%03u", c) : ec_asprintf(&s, "<%03u", c);
		break;
	default:
		k = 0;
		r = viav ? vfmt(&s, "") : ec_asprintf(&s, "%s", "");
	}
	exp[k] = 0;
	sym_assert(r == (int)k && s != NULL, "returns the length of the text");
	sym_assert(strcmp(s, exp) == 0, "text as the format prescribes");
	sym_assert(h_live == h_base + 1, "text comes from the registered allocator");
	ec_free(s);
	h_end();
}
/* long texts */
#define BIG 70000
void h_fmtlong(void)
{
	static const unsigned lens[] = { 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32768, 65536 };
	static char a[BIG];
	char *s = NULL;
	unsigned n = lens[sym_choice(16, "len")], at, viav = sym_choice(2, "va"), i;
	int r;

	h_init();
	for (i = 0; i < n; i++)
		a[i] = 'a' + i % 23;
	at = sym_choice(2, "where") ? n - 1 : n / 2;
	a[at] = sym_u8("byte");
	sym_assume(a[at] != 0);
	r = viav ? vfmt(&s, "%s", a) : ec_asprintf(&s, "%s", a);
	sym_assert(r == (int)n && s != NULL, "returns the length of the text");
	sym_assert(!memcmp(s, a, n + 1), "text as the format prescribes");
	ec_free(s);
	s = ec_strdup(a);
	sym_assert(s != NULL && !memcmp(s, a, n + 1), "copied");
	ec_free(s);
	s = ec_strndup(a, n - 1);
	sym_assert(s != NULL && strlen(s) == n - 1 && !memcmp(s, a, n - 1), "beginning copied");
	sym_assert(ec_str_startswith(a, s), "prefix test");
	sym_assert(ec_strcmp_count(a, s) == n - 1, "common prefix length");
	ec_free(s);
	h_end();
}
