/* P01: shell-like lexing */
#include "harness.h"
#include "ref_shlex.h"
#ifndef N
#define N 4
#endif

static void check_words(const struct ec_strvec *v, const struct ref_lex *r, int extra)
{
	unsigned int i, j;

	sym_assert(ec_strvec_len(v) == r->n + extra, "number of words");
	if (ec_strvec_len(v) != r->n + extra)
		return;
	for (i = 0; i < r->n; i++) {
		const char *w = ec_strvec_val(v, i);
		for (j = 0; j < r->len[i]; j++)
			sym_assert(w[j] == r->w[i][j], "word content");
		sym_assert(w[r->len[i]] == 0, "word length");
		sym_observe("wlen", strlen(w));
	}
	if (extra)
		sym_assert(ec_strvec_val(v, r->n)[0] == 0, "trailing word is empty");
}

/* the lexer function, all option combinations */
void h_lex(void)
{
	static char s[N + 1];
	static struct ref_lex r;
	struct ec_strvec *v;
	size_t n;
	unsigned int flags;
	char quote = '?';

	h_init();
	n = N;
	if (sym_shard(4) < 3)
		h_strn(s, n, "line");
	else
		n = h_str(s, N - 1, "line");
	/* shards split the space by the class of the first byte */
	switch (sym_shard(4)) {
	case 0: sym_assume((s[0] == '"') | (s[0] == '\'')); break;
	case 1: sym_assume((s[0] == '#') | (s[0] == '\\') | ref_space(s[0])); break;
	case 2: sym_assume(!((s[0] == '"') | (s[0] == '\'') | (s[0] == '#') | (s[0] == '\\') | ref_space(s[0]))); break;
	}
	ref_lex(&r, s, n);
	flags = sym_choice(4, "flags"); /* 1 strict, 2 trailing space */

	errno = 0;
	v = ec_strvec_sh_lex_str(s, flags, &quote);
	if (r.open)
		sym_assert(quote == r.open, "the open quote is reported");
	else
		sym_assert(quote == '?' || quote == 0, "no quote is reported when none is open");
	if ((flags & EC_STRVEC_STRICT) && (r.open || r.dangling)) {
		sym_assert(v == NULL, "strict mode rejects an unterminated line");
		sym_assert(errno == EBADMSG, "strict mode reports a bad message");
		sym_cover("rejected");
	} else {
		sym_assert(v != NULL, "line accepted");
		if (v != NULL) {
			check_words(v, &r, (flags & EC_STRVEC_TRAILSP) && r.trailing);
			if (r.n > 1)
				sym_cover("words");
		}
	}
	ec_strvec_free(v);
	h_end();
}

/* parsing through a shell lexer node */
void h_node(void)
{
	static char s[N + 1];
	static struct ref_lex r;
	struct ec_node *node;
	struct ec_pnode *p;
	size_t n;

	h_init();
	node = ec_node_sh_lex("lex", ec_node_many("many", ec_node("any", "a"), 0, 0));
	sym_assert(node != NULL, "node created");
	n = h_str(s, N, "line");
	ref_lex(&r, s, n);
	p = ec_parse(node, s);
	sym_assert(p != NULL, "parse does not fail");
	if (r.open || r.dangling) {
		sym_assert(!ec_pnode_matches(p), "an unterminated line does not match");
		sym_assert(ec_pnode_get_first_child(p) == NULL, "no debris");
		sym_cover("nomatch");
	} else {
		struct ec_pnode *m;
		sym_assert(ec_pnode_matches(p), "any terminated line matches");
		sym_assert(ec_pnode_len(p) == 1, "the line is one input word");
		m = (struct ec_pnode *)ec_pnode_find(p, "many");
		sym_assert(m != NULL, "child parsed");
		if (m != NULL)
			check_words(ec_pnode_get_strvec(m), &r, 0);
	}
	ec_pnode_free(p);
	ec_node_free(node);
	h_end();
}

/* words about as long as the buffer of the lexer, followed by any bytes */
#ifndef T
#define T 3
#endif
#define LMAX 8200
void h_long(void)
{
	static char s[LMAX + 16], sh[16];
	static struct ref_lex r;
	static const char *const ctx[] = { "", "\"", "'", "b " };
	struct ec_strvec *v;
	const char *c = ctx[sym_choice(4, "context")];
	size_t fill, pos = strlen(c), n, i, w;

	h_init();
	fill = sym_choice(2, "size") ? 8189 : 4093;
	sym_part();
	/* a short line with the same end gives the words, all but the filler */
	memcpy(sh, c, pos);
	sh[pos] = 'x';
	memcpy(s, c, pos);
	memset(s + pos, 'x', fill);
	n = T;
	h_strn(s + pos + fill, n, "end");
	memcpy(sh + pos + 1, s + pos + fill, n + 1);
	ref_lex(&r, sh, pos + 1 + n);
	v = ec_strvec_sh_lex_str(s, 0, NULL);
	w = c[0] == 'b';
	if (v == NULL) {
		sym_assert(r.len[w] - 1 + fill > 8000, "a word of less than 8000 bytes is not refused");
		sym_cover("refused");
	} else {
		sym_assert(ec_strvec_len(v) == r.n, "number of words");
		for (i = 0; i < r.n && i < ec_strvec_len(v); i++) {
			const char *x = ec_strvec_val(v, i);
			size_t skip = i == w ? fill - 1 : 0;
			sym_assert(strlen(x) == r.len[i] + skip, "word length");
			if (strlen(x) == r.len[i] + skip)
				sym_assert(memcmp(x + skip, r.w[i], r.len[i]) == 0, "word content");
		}
		sym_cover("read");
	}
	ec_strvec_free(v);
	h_end();
}
