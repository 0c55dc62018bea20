/* Reference shell-like lexer, written from the documented rules (recursive descent over words,
 * not a state machine). */
#ifndef REF_SHLEX_H
#define REF_SHLEX_H
#define RMAXW 8
#define RMAXL 24
struct ref_lex {
	unsigned int n;                 /* words */
	unsigned int len[RMAXW];
	char w[RMAXW][RMAXL];
	int open;                       /* 0 or the quote left open */
	int dangling;                   /* ends with an unfinished escape */
	int trailing;                   /* ends with white space outside words (or is empty) */
};
static int ref_space(char c)
{
	return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\v') | (c == '\f') | (c == '\r');
}
static void ref_put(struct ref_lex *r, char c)
{
	r->w[r->n][r->len[r->n]++] = c;
}
static void ref_lex(struct ref_lex *r, const char *s, size_t n)
{
	size_t p = 0;

	memset(r, 0, sizeof(*r));
	r->trailing = 1;
	while (p < n) {
		if (ref_space(s[p])) {
			r->trailing = 1;
			p++;
			continue;
		}
		r->trailing = 0;
		if (s[p] == '#') {
			while (p < n && s[p] != '\n' && s[p] != '\r')
				p++;
			continue;
		}
		/* one word */
		while (p < n && !ref_space(s[p])) {
			char c = s[p++];
			if (c == '\\') {
				if (p == n)
					r->dangling = 1;
				else
					ref_put(r, s[p++]);
			} else if (c == '\'') {
				while (p < n && s[p] != '\'')
					ref_put(r, s[p++]);
				if (p == n)
					r->open = c;
				else
					p++;
			} else if (c == '"') {
				while (p < n && s[p] != '"') {
					if (s[p] == '\\') {
						p++;
						if (p == n) {
							r->dangling = 1;
							break;
						}
					}
					ref_put(r, s[p++]);
				}
				if (p == n)
					r->open = c;
				else
					p++;
			} else
				ref_put(r, c);
		}
		r->n++;
	}
}
#endif
