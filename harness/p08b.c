/* P08: a lexer below other nodes: proposals made before it, partial ones, several words */
#include "harness.h"
#include <ecoli_node_or.h>
#include <ecoli_node_seq.h>
#include <ecoli_node_str.h>
#include <ecoli_node_sh_lex.h>
#include "ref_shlex.h"
#ifndef N
#define N 3
#endif
/* a node type proposing one full, one partial and one unknown item for any last word */
static const char *p_word;
static int probe_parse(const struct ec_node *n, struct ec_pnode *s, const struct ec_strvec *v)
{
	(void)n; (void)s;
	return ec_strvec_len(v) ? 1 : EC_PARSE_NOMATCH;
}
static int probe_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v)
{
	static char s[64], e[64];
	if (ec_strvec_len(v) != 1)
		return 0;
	p_word = ec_strvec_val(v, 0);
	snprintf(s, sizeof(s), "%sF", p_word);
	if (!ec_comp_add_item(c, n, EC_COMP_FULL, p_word, s))
		return -1;
	snprintf(e, sizeof(e), "%sP", p_word);
	if (!ec_comp_add_item(c, n, EC_COMP_PARTIAL, p_word, e))
		return -1;
	if (!ec_comp_add_item(c, n, EC_COMP_UNKNOWN, NULL, NULL))
		return -1;
	return 0;
}
static struct ec_node_type ty = { .name = "probe", .parse = probe_parse, .complete = probe_complete };

void h_around(void)
{
	static char line[N + 1], w[N + 2], q[N + 8], m[8];
	static struct ref_lex r;
	struct ec_node *top, *lex, *pre[3], *pr;
	unsigned i, np = sym_choice(4, "outside"), after = sym_choice(2, "after"), two = sym_choice(2, "two"), full = 0, part = 0, unk = 0, out = 0, aft = 0;
	struct ec_comp *c;
	struct ec_comp_item *it;
	struct ec_strvec *v;
	size_t len;
	int reads;

	h_init();
	sym_assert(ec_node_type_register(&ty, false) == 0, "type registered");
	len = h_str(line, N, "line");
	if (len)
		sym_concrete(line[0] == '"' ? 2 : line[0] == '\'' ? 3 : line[0] == ' ' ? 4 : line[0] == '\\' ? 5 : line[0] == '#' ? 6 : 0);
	sym_part();
	pr = ec_node("probe", "probe");
	sym_assert(pr != NULL, "node created");
	lex = ec_node_sh_lex("lex", pr);
	top = ec_node("or", "top");
	/* alternatives before the lexer proposing each a full item and the probe's partial items */
	memcpy(w, line, len);
	w[len] = 'z';
	for (i = 0; i < np; i++) {
		pre[i] = ec_node_str("pre", two ? "z" : w);
		sym_assert(ec_node_or_add(top, pre[i]) == 0, "child added");
	}
	sym_assert(ec_node_or_add(top, lex) == 0, "child added");
	if (after)
		sym_assert(ec_node_or_add(top, ec_node_str("after", w)) == 0, "child added");
	ref_lex(&r, line, len);
	v = ec_strvec();
	sym_assert(v && ec_strvec_add(v, line) == 0, "word added");
	if (two) { /* not a single text: the lexer proposes nothing */
		if (sym_choice(2, "first"))
			sym_assert(ec_strvec_set(v, 0, "x") == 0 && ec_strvec_add(v, line) == 0, "word added");
		else
			sym_assert(ec_strvec_add(v, "") == 0, "word added");
	}
	/* the probe completes a single word only */
	reads = !two && r.n + r.trailing == 1;
	c = ec_complete_strvec(top, v);
	sym_assert(c != NULL, "completion does not fail");
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		const struct ec_node *nd = ec_comp_item_get_node(it);
		const char *s = ec_comp_item_get_str(it), *cc = ec_comp_item_get_completion(it);
		enum ec_comp_type t = ec_comp_item_get_type(it);
		unsigned l;
		if (nd != pr) {
			sym_assert(t == EC_COMP_FULL && !strcmp(s, w) && !strcmp(cc, "z") && !strcmp(ec_comp_item_get_display(it), w), "proposals from outside the lexer are left alone");
			if (!strcmp(ec_node_id(nd), "pre"))
				out++;
			else
				aft++;
			continue;
		}
		if (t == EC_COMP_UNKNOWN) {
			unk++;
			sym_assert(s == NULL && cc == NULL, "unknown items have no text");
			continue;
		}
		if (t == EC_COMP_FULL)
			full++;
		else
			part++;
		if (!reads)
			continue;
		l = r.trailing ? 0 : r.len[0];
		memset(q, 0, sizeof(q));
		if (!r.trailing)
			memcpy(q, r.w[0], l);
		q[l] = t == EC_COMP_FULL ? 'F' : 'P';
		q[l + 1] = 0;
		sym_assert(!strcmp(ec_comp_item_get_display(it), q), "display shows the word");
		m[0] = q[l];
		m[1] = 0;
		if (t == EC_COMP_FULL && r.open) {
			memmove(q + 1, q, l + 2);
			q[0] = q[l + 2] = r.open;
			q[l + 3] = 0;
			m[1] = r.open;
			m[2] = 0;
			sym_cover("quoted");
		}
		sym_assert(!strcmp(s, q), "a full proposal in an open quote is quoted, nothing else is");
		sym_assert(!strcmp(cc, m), "a full proposal in an open quote closes it, nothing else does");
	}
	sym_assert(full == (unsigned)reads && part == (unsigned)reads && unk == (unsigned)reads, "the proposals of the lexed grammar, once each");
	sym_assert(out == (two ? 0 : np) && aft == (two ? 0 : after), "the proposals from outside, once each");
	sym_cover(reads ? "read" : "not");
	ec_comp_free(c);
	ec_strvec_free(v);
	ec_node_free(top);
	h_end();
}
