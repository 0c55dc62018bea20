/* Reference reading of a numeral: optional blanks, optional sign, optional prefix, digits to the end. */
#ifndef NUM_H
#define NUM_H
#include <stdint.h>
static unsigned num_digit(unsigned char c)
{
	return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
}
/* returns 0 and sets neg/mag when the whole string is a numeral (over: magnitude above 2^64-1) */
static int num_read(const char *s, unsigned base, int *neg, uint64_t *mag, int *over)
{
	uint64_t v = 0;
	unsigned n = 0;

	*neg = *over = 0;
	if (base == 1 || base > 36)
		return -1;
	while (*s == ' ' || (*s >= 9 && *s <= 13))
		s++;
	if (*s == '-' || *s == '+')
		*neg = *s++ == '-';
	if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && (base == 0 || base == 16) && num_digit(s[2]) < 16) {
		s += 2;
		base = 16;
	} else if (s[0] == '0' && (s[1] == 'b' || s[1] == 'B') && (base == 0 || base == 2) && num_digit(s[2]) < 2) {
		s += 2;
		base = 2;
	} else if (base == 0)
		base = s[0] == '0' ? 8 : 10;
	for (; *s; s++, n++) {
		unsigned d = num_digit(*s);
		if (d >= base)
			return -1;
		if (v >= UINT64_MAX / base && (v > UINT64_MAX / base || d > UINT64_MAX % base))
			*over = 1;
		v = v * base + d;
	}
	*mag = v;
	return n ? 0 : -1;
}
static int num_signed(const char *s, unsigned base, int64_t *v)
{
	int neg, over;
	uint64_t m;

	if (num_read(s, base, &neg, &m, &over) < 0 || over)
		return -1;
	if (neg ? m > (uint64_t)INT64_MAX + 1 : m > INT64_MAX)
		return -1;
	*v = neg ? (int64_t)(0 - m) : (int64_t)m;
	return 0;
}
static int num_unsigned(const char *s, unsigned base, uint64_t *v)
{
	int neg, over;

	if (num_read(s, base, &neg, v, &over) < 0 || over || neg)
		return -1;
	return 0;
}
/* with FEWLIM, limits out of a short list (cheaper for the solver, longer words) instead of any */
static void num_limits(uint64_t *min, uint64_t *max)
{
#ifdef FEWLIM
	static const uint64_t few[][2] = { { 0, INT64_MAX }, { (uint64_t)-9, 70 }, { INT64_MIN, INT64_MAX }, { 0, UINT64_MAX }, { 7, 300 }, { 8, 8 } };
	int i = sym_choice(FEWLIM, "limitpair");
	*min = few[i][0];
	*max = few[i][1];
#else
	*min = sym_u64("min");
	*max = sym_u64("max");
#endif
}
#endif
