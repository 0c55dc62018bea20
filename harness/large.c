/* large grammars, many words, long words: parsing, parse tree, completion */
#include "harness.h"
#include <ecoli_node_str.h>
#include <ecoli_node_seq.h>
#include <ecoli_node_or.h>
#include <ecoli_node_many.h>
#include <ecoli_node_option.h>
#include <ecoli_node_subset.h>
#include <ecoli_node_once.h>
#include <ecoli_node_any.h>
#include <ecoli_node_sh_lex.h>
#include <ecoli_node_bypass.h>
#define B(x) sym_concrete(!!(x))
#define MAXW 300
static const unsigned lens[] = { 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257 };
#define NL_ 20
static char lw[700], ll[700], lb[16];
static struct ec_strvec *vec;
static char bytes[MAXW]; /* first byte of each word */
static unsigned nw;
static void word(const char *s) { sym_assert(ec_strvec_add(vec, s) == 0, "word added"); bytes[nw++] = s[0]; }
static const char *name(unsigned i) { snprintf(lb, sizeof(lb), "w%u", i); return lb; }
static void lit(char *d, unsigned n)
{
	unsigned i;
	for (i = 0; i < n; i++)
		d[i] = 'a' + i % 19;
	d[n] = 0;
}
/* the children of the root, in order, one word each, starting with the first word */
static void flat(const struct ec_pnode *p, unsigned cnt)
{
	struct ec_pnode *c = ec_pnode_get_first_child(p);
	const struct ec_strvec *s;
	unsigned i;

	s = ec_pnode_get_strvec(p);
	sym_assert(s != NULL && ec_strvec_len(s) == cnt, "the root has the words that were matched");
	for (i = 0; i < cnt; i++) {
		sym_assert(ec_strvec_val(s, i)[0] == bytes[i], "the root has the words that were matched");
		sym_assert(c != NULL && ec_pnode_get_parent(c) == p && ec_pnode_len(c) == 1, "one child per word");
		sym_assert(!strcmp(ec_strvec_val(ec_pnode_get_strvec(c), 0), ec_strvec_val(vec, i)), "each child has its word");
		c = ec_pnode_next(c);
	}
	sym_assert(c == NULL, "no other child");
}
void h_parse(void)
{
	static const unsigned counts[] = { 1, 2, 3, 8, 17, 33, 66 };
	unsigned kind = sym_choice(8, "kind"), n, i, at, tree = 1, cnt, lim;
	struct ec_node *g = NULL, *x;
	struct ec_pnode *p;
	int m = 0;
	unsigned want = 0;
	char w1[2] = "a";

	h_init();
	vec = ec_strvec();
	n = kind == 0 || kind == 3 || kind == 5 ? lens[sym_choice(NL_, "len")] : counts[sym_choice(kind == 6 ? 4 : 7, "count")];
	sym_part();
	switch (kind) {
	case 0: { /* repetition */
		unsigned min, max;
		static const unsigned lim_[] = { 0, 1, 255, 256, 257, 65536, 65537 };
		i = sym_choice(10, "max");
		max = i < 7 ? lim_[i] : n + i - 8;
		i = sym_choice(4, "min");
		min = i == 0 ? 0 : i == 1 ? n : i == 2 ? n + 1 : 256;
		g = ec_node_many("m", ec_node_str("s", "a"), min, max);
		for (i = 0; i < n; i++) {
			w1[0] = 'a';
			if (i == n - 1)
				w1[0] = sym_u8("byte");
			word(w1);
		}
		sym_assume(w1[0] != 0);
		cnt = B(w1[0] == 'a') ? n : n - 1;
		lim = max == 0 ? cnt : max < cnt ? max : cnt;
		m = lim >= min;
		want = lim;
		break;
	}
	case 1: case 2: case 4: /* sequence, alternative, sequence of options */
		g = ec_node(kind == 2 ? "or" : "seq", "g");
		for (i = 0; i < n; i++) {
			x = ec_node_str(name(i), name(i));
			if (kind == 4)
				x = ec_node_option("o", x);
			sym_assert((kind == 2 ? ec_node_or_add(g, x) : ec_node_seq_add(g, x)) == 0, "child added");
		}
		if (kind == 1) {
			for (i = 0; i < n - 1; i++)
				word(name(i));
			name(n - 1);
			lb[1] = sym_u8("byte");
			sym_assume(lb[1] != 0);
			word(lb);
			w1[0] = lb[1];
			m = B(w1[0] == name(n - 1)[1]);
			want = n;
		} else if (kind == 2) {
			at = sym_choice(3, "at");
			at = at == 0 ? n - 1 : at == 1 ? n / 2 : 0;
			name(at);
			i = strlen(lb) - 1;
			w1[0] = lb[i] = sym_u8("byte");
			sym_assume(w1[0] != 0);
			strcpy(lw, lb);
			word(lw);
			for (i = 0; i < n; i++)
				if (strlen(name(i)) == strlen(lw) && !m)
					m = B(!strcmp(name(i), lw));
			want = 1;
		} else { /* every other word, then one that does not follow */
			for (i = sym_choice(2, "from"); i < n; i += 2)
				word(name(i)), want++;
			word("w0");
			m = 1;
			if (want == 0)
				want = 1; /* w0 itself */
			tree = 0;
		}
		break;
	case 3: /* a long literal, a long word */
		lit(ll, n);
		lit(lw, n + 1);
		i = sym_choice(3, "longer");
		lw[n - 1 + i] = 0; /* shorter, equal, longer */
		at = sym_choice(3, "at");
		at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
		if (at < strlen(lw)) {
			lw[at] = sym_u8("byte");
			sym_assume(lw[at] != 0);
		}
		g = ec_node_str("s", ll);
		word(lw);
		m = i == 1 && B(lw[at] == ll[at]);
		want = 1;
		tree = 0;
		break;
	case 5: /* blanks, any word */
		for (i = 0; i < n; i++)
			lw[i] = i % 2 ? ' ' : '\t';
		lw[n - 1] = sym_u8("byte");
		sym_assume(lw[n - 1] != 0);
		i = sym_choice(2, "any");
		g = ec_node(i ? "any" : "space", "s");
		word(lw);
		m = i || B(lw[n - 1] == ' ' || (lw[n - 1] >= 9 && lw[n - 1] <= 13));
		want = 1;
		tree = 0;
		break;
	case 6: /* subset, words in another order, then one again */
		g = ec_node("subset", "g");
		for (i = 0; i < n; i++)
			sym_assert(ec_node_subset_add(g, ec_node_str(name(i), name(i))) == 0, "child added");
		for (i = 0; i < n; i++)
			word(name((i * 5 + 2) % n));
		lb[1] = sym_u8("byte");
		sym_assume(lb[1] != 0);
		word(lb);
		m = 1;
		want = n;
		break;
	default: /* nested */
		g = ec_node_str("s", "a");
		for (i = 0; i < n; i++)
			g = i % 3 == 0 ? ec_node_option("o", g) : i % 3 == 1 ? EC_NODE_SEQ("q", g) : ec_node_bypass("b", g);
		w1[0] = sym_u8("byte");
		sym_assume(w1[0] != 0);
		word(w1);
		m = 1;
		want = B(w1[0] == 'a');
		tree = 0;
		break;
	}
	sym_assert(g != NULL, "grammar built");
	p = ec_parse_strvec(g, vec);
	sym_assert(p != NULL, "parsing does not fail");
	sym_assert(ec_pnode_matches(p) == !!m, "matches exactly when it should");
	if (m) {
		sym_assert(ec_pnode_len(p) == want, "consumes the words it should");
		if (tree)
			flat(p, want);
		sym_cover("match");
	} else {
		sym_assert(ec_pnode_get_first_child(p) == NULL, "nothing left in the tree without a match");
		sym_cover("nomatch");
	}
	ec_pnode_free(p);
	ec_strvec_free(vec);
	ec_node_free(g);
	h_end();
}
void h_comp(void)
{
	static const unsigned counts[] = { 1, 2, 3, 8, 17, 33, 66 };
	unsigned kind = sym_choice(5, "kind"), n, i, at, want = 0, got = 0;
	struct ec_node *g = NULL;
	struct ec_comp *c;
	struct ec_comp_item *it;
	char w1[2] = "a";

	h_init();
	vec = ec_strvec();
	n = kind == 1 ? lens[sym_choice(NL_, "len")] : counts[sym_choice(kind == 4 ? 4 : kind > 1 ? 5 : 7, "count")];
	sym_part();
	switch (kind) {
	case 0: /* alternatives sharing a beginning */
		g = ec_node("or", "g");
		for (i = 0; i < n; i++)
			sym_assert(ec_node_or_add(g, ec_node_str(name(i), name(i))) == 0, "child added");
		lw[0] = 'w';
		i = sym_choice(3, "typed");
		lw[i] = 0;
		if (i)
			lw[i - 1] = sym_u8("byte");
		if (i)
			sym_assume(lw[i - 1] != 0);
		if (i == 2)
			lw[0] = 'w';
		for (i = 0; i < n; i++)
			want += B(!strncmp(name(i), lw, strlen(lw)));
		word(lw);
		break;
	case 1: /* a long word */
		lit(ll, n);
		lit(lw, n + 1);
		i = sym_choice(4, "typed");
		lw[i == 3 ? n / 2 : n - 1 + i] = 0;
		at = sym_choice(2, "at") ? (strlen(lw) ? strlen(lw) - 1 : 0) : 0;
		if (lw[at]) {
			lw[at] = sym_u8("byte");
			sym_assume(lw[at] != 0);
		}
		g = ec_node_str("s", ll);
		want = strlen(lw) <= n && B(!strncmp(ll, lw, strlen(lw)));
		word(lw);
		break;
	case 2: /* at the end of a long sequence */
		g = ec_node("seq", "g");
		for (i = 0; i < n; i++)
			sym_assert(ec_node_seq_add(g, ec_node_str(name(i), name(i))) == 0, "child added");
		at = sym_choice(2, "last") ? n - 1 : n / 2;
		for (i = 0; i < at; i++) {
			name(i);
			if (i == at - 1) {
				lb[1] = sym_u8("byte");
				sym_assume(lb[1] != 0);
			}
			word(lb);
			w1[0] = lb[1];
		}
		want = at == 0 || B(name(at - 1)[1] == w1[0]);
		word(sym_choice(2, "empty") ? "" : "w");
		strcpy(ll, name(at));
		break;
	case 3: { /* after many repetitions */
		unsigned max = sym_choice(4, "max");
		max = max == 0 ? 0 : max == 1 ? n : max == 2 ? n + 1 : n + 2;
		g = ec_node_many("m", ec_node_str("s", "ab"), sym_choice(2, "min") ? n + 1 : 0, max);
		strcpy(lw, "ab");
		for (i = 0; i < n; i++) {
			if (i == n - 1)
				lw[1] = sym_u8("byte");
			word(lw);
		}
		sym_assume(lw[1] != 0);
		want = (max == 0 || max > n) && B(lw[1] == 'b');
		word("a");
		strcpy(ll, "ab");
		break;
	}
	default: /* the rest of a subset */
		g = ec_node("subset", "g");
		for (i = 0; i < n; i++)
			sym_assert(ec_node_subset_add(g, ec_node_str(name(i), name(i))) == 0, "child added");
		at = sym_choice(n < 4 ? n + 1 : 4, "used");
		for (i = 0; i < at; i++)
			word(name((i * 5 + 1) % n));
		want = n - at;
		word("w");
		break;
	}
	sym_assert(g != NULL, "grammar built");
	c = ec_complete_strvec(g, vec);
	sym_assert(c != NULL, "completion does not fail");
	sym_assert(ec_comp_count(c, EC_COMP_PARTIAL | EC_COMP_UNKNOWN) == 0, "literals are full proposals");
	EC_COMP_FOREACH(it, c, EC_COMP_FULL) {
		const char *s = ec_comp_item_get_str(it), *t = ec_strvec_val(vec, ec_strvec_len(vec) - 1);
		const struct ec_node *nd = ec_comp_item_get_node(it);
		size_t l = strlen(t);
		if (kind == 0 || kind == 4)
			sym_assert(!strcmp(ec_node_id(nd), s), "a proposal comes from its literal node");
		else
			sym_assert(!strcmp(s, ll), "the word of the grammar is proposed");
		sym_assert(strlen(s) >= l && !memcmp(s, t, l) && !strcmp(ec_comp_item_get_completion(it), s + l), "the completion is the missing part");
		sym_assert(!strcmp(ec_comp_item_get_display(it), s), "display");
		got++;
		if (kind == 4) /* not one that is used already */
			for (i = 0; i + 1 < ec_strvec_len(vec); i++)
				sym_assert(strcmp(s, ec_strvec_val(vec, i)), "not used yet");
	}
	if (kind == 4) { /* several ways to read the words may propose a word several times */
		sym_assert(got >= want && (want || !got), "as many proposals as acceptable words");
		for (i = 0; i < n; i++) {
			at = 0;
			strcpy(lw, name(i));
			EC_COMP_FOREACH(it, c, EC_COMP_FULL)
				at |= !strcmp(ec_comp_item_get_str(it), lw);
			for (got = 0; got + 1 < ec_strvec_len(vec); got++)
				at |= !strcmp(ec_strvec_val(vec, got), lw);
			sym_assert(at, "every word not used yet is proposed");
		}
	} else
		sym_assert(got == want, "exactly the acceptable words are proposed");
	sym_cover(want ? "proposed" : "nothing");
	ec_comp_free(c);
	ec_strvec_free(vec);
	ec_node_free(g);
	h_end();
}
