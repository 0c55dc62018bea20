/* P04: integer nodes */
#include "harness.h"
#include "num.h"
#ifndef N
#define N 3
#endif
static const unsigned bases[] = { 0, 10, 16, 8, 2, 36 };

static struct ec_node *make(int sgn, int hasmin, int hasmax, int hasbase, uint64_t min, uint64_t max, unsigned base)
{
	struct ec_config *c = ec_config_dict();
	struct ec_node *n = ec_node(sgn ? "int" : "uint", "x");
	int r = 0;

	if (hasmin)
		r |= ec_config_dict_set(c, "min", sgn ? ec_config_i64((int64_t)min) : ec_config_u64(min));
	if (hasmax)
		r |= ec_config_dict_set(c, "max", sgn ? ec_config_i64((int64_t)max) : ec_config_u64(max));
	if (hasbase)
		r |= ec_config_dict_set(c, "base", ec_config_u64(base));
	sym_assert(r == 0 && n != NULL, "configuration built");
	if (ec_node_set_config(n, c) < 0) {
		ec_node_free(n);
		return NULL;
	}
	return n;
}
/* a node with any optional limits against any word */
static void judge(int sgn, const char *w, int hasmin, int hasmax, int hasbase, unsigned base, int ctor)
{
	uint64_t min, max, uv = 0, ug = 0;
	int64_t iv = 0, ig = 0;
	struct ec_node *n;
	struct ec_strvec *v;
	struct ec_pnode *p;
	int ok, inverted;

	num_limits(&min, &max);
	inverted = hasmin && hasmax && (sgn ? (int64_t)min > (int64_t)max : min > max);
	if (ctor)
		n = sgn ? ec_node_int("x", (int64_t)min, (int64_t)max, base) : ec_node_uint("x", min, max, base);
	else
		n = make(sgn, hasmin, hasmax, hasbase, min, max, base);
	sym_assert((n == NULL) == inverted, "limits are refused exactly when the minimum exceeds the maximum");
	if (n == NULL) {
		sym_cover("refused");
		h_end();
		return;
	}
	if (sgn) {
		ok = num_signed(w, hasbase ? base : 0, &iv) == 0;
		if (ok && hasmin && iv < (int64_t)min)
			ok = 0;
		if (ok && hasmax && iv > (int64_t)max)
			ok = 0;
	} else {
		ok = num_unsigned(w, hasbase ? base : 0, &uv) == 0;
		if (ok && hasmin && uv < min)
			ok = 0;
		if (ok && hasmax && uv > max)
			ok = 0;
	}
	v = ec_strvec();
	sym_assert(ec_strvec_add(v, w) == 0, "word added");
	p = ec_parse_strvec(n, v);
	sym_assert(p != NULL, "parsing does not fail");
	sym_assert(ec_pnode_matches(p) == (size_t)ok, "accepts exactly the in-range numerals");
	sym_observe("ok", ok);
	if (ok) {
		sym_cover("accepted");
		sym_assert(ec_pnode_len(p) == 1, "consumes one word");
	}
	if (sgn) {
		sym_assert((ec_node_int_getval(n, w, &ig) == 0) == ok, "value accessor accepts the same words");
		if (ok)
			sym_assert(ig == iv, "value accessor returns the value of the numeral");
		sym_assert(ec_node_uint_getval(n, w, &ug) < 0, "unsigned accessor refuses a signed node");
	} else {
		sym_assert((ec_node_uint_getval(n, w, &ug) == 0) == ok, "value accessor accepts the same words");
		if (ok)
			sym_assert(ug == uv, "value accessor returns the value of the numeral");
		sym_assert(ec_node_int_getval(n, w, &ig) < 0, "signed accessor refuses an unsigned node");
	}
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(n);
	h_end();
}
void h_int(void)
{
	static char w[N + 1];
	int sgn = sym_choice(2, "signed"), lim = sym_choice(5, "limits"), b = sym_choice(7, "base");

	h_init();
	sym_part();
	h_str(w, N, "w");
	judge(sgn, w, lim == 4 || (lim & 1), lim == 4 || (lim & 2), lim == 4 || b < 6, b < 6 ? bases[b] : 0, lim == 4);
}
/* long numerals around the 64-bit edges: prefix fixed, last K bytes arbitrary */
#ifndef KL
#define KL 2
#endif
void h_edge(void)
{
	static const struct { const char *s; unsigned char base; } pre[] = {
		{ "92233720368547758", 10 }, { "-92233720368547758", 10 }, { "184467440737095516", 10 },
		{ "0x7ffffffffffffff", 16 }, { "-0x800000000000000", 0 }, { "0xffffffffffffffff", 0 },
		{ "0777777777777777777777", 0 }, { "1777777777777777777777", 8 }, { "000000000000000000000", 10 },
		{ "  +99", 0 }, { "ffffffffffffff", 16 },
	};
	static char w[40];
	int i = sym_choice(sizeof(pre) / sizeof(pre[0]), "prefix"), sgn = sym_choice(2, "signed"), lim = sym_choice(2, "limits");
	size_t l = strlen(pre[i].s);

	h_init();
	sym_part();
	memcpy(w, pre[i].s, l);
	h_str(w + l, KL, "w");
	judge(sgn, w, lim, lim, 1, pre[i].base, 0);
}
/* empty input and reconfiguration */
void h_reconf(void)
{
	int sgn = sym_choice(2, "signed"), a = sym_choice(4, "first"), b = sym_choice(4, "second"), ok;
	static char w[3];
	struct ec_node *n;
	struct ec_config *c;
	struct ec_strvec *v;
	struct ec_pnode *p;
	int64_t iv = 0;
	uint64_t uv = 0;

	h_init();
	n = make(sgn, a & 1, a & 2, 1, 3, 5, 10);
	c = ec_config_dict();
	if (b & 1)
		ec_config_dict_set(c, "min", sgn ? ec_config_i64(2) : ec_config_u64(2));
	if (b & 2)
		ec_config_dict_set(c, "max", sgn ? ec_config_i64(7) : ec_config_u64(7));
	sym_assert(ec_node_set_config(n, c) == 0, "second configuration accepted");
	v = ec_strvec();
	p = ec_parse_strvec(n, v);
	sym_assert(p != NULL && !ec_pnode_matches(p), "no word, no match");
	ec_pnode_free(p);
	h_str(w, 2, "w");
	sym_assert(ec_strvec_add(v, w) == 0, "word added");
	p = ec_parse_strvec(n, v);
	sym_assert(p != NULL, "parsing does not fail");
	if (sgn)
		ok = num_signed(w, 0, &iv) == 0 && (!(b & 1) || iv >= 2) && (!(b & 2) || iv <= 7);
	else
		ok = num_unsigned(w, 0, &uv) == 0 && (!(b & 1) || uv >= 2) && (!(b & 2) || uv <= 7);
	sym_assert(ec_pnode_matches(p) == (size_t)ok, "only the last configuration counts");
	sym_observe("ok", ok);
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(n);
	h_end();
}
