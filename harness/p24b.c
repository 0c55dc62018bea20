/* P24: typed lines over a grammar with a lexer */
#include "p24.c"
static struct ec_node *G;
static struct ec_node *gram(unsigned k)
{
	struct ec_node *a = ec_node_str("A", "ab"), *b = ec_node_str("B", "ac"), *x;

	if (a == NULL || b == NULL ||
			ec_dict_set(ec_node_attrs(a), "help", "HA", NULL) < 0) {
		ec_node_free(a);
		ec_node_free(b);
		return NULL;
	}
	if (k == 0)
		x = EC_NODE_SEQ("S", EC_NODE_OR("O", a, b), ec_node_option("P", ec_node_str("C", "c")));
	else if (k == 1)
		x = EC_NODE_SUBSET("S", a, b, ec_node("any", "Y"));
	else
		x = ec_node_many("M", EC_NODE_OR("O", a, b), 1, 2);
	if (x != NULL && ec_dict_set(ec_node_attrs(x), "help", "HT", NULL) < 0) {
		ec_node_free(x);
		return NULL;
	}
	return ec_node_sh_lex("L", x);
}
static char typed[N + 2], before[N + 2];
/* expected helps for a beginning and a whole line: descriptions and helps */
#define NHLP 8
static struct { char d[16], h[24]; } wh[NHLP];
static unsigned nwh;
static void want_helps(const char *beg, const char *all)
{
	struct ec_pnode *p;
	struct ec_comp *c;
	struct ec_comp_item *i;
	const struct ec_comp_group *last = NULL;

	nwh = 0;
	p = ec_parse(G, all);
	sym_assert(p != NULL, "parsed");
	if (ec_pnode_matches(p)) {
		strcpy(wh[0].d, "<return>");
		strcpy(wh[0].h, "Validate command.");
		nwh = 1;
	}
	ec_pnode_free(p);
	c = ec_complete(G, beg);
	sym_assert(c != NULL, "completed");
	EC_COMP_FOREACH(i, c, EC_COMP_ALL) {
		const struct ec_node *n = ec_comp_item_get_node(i);
		const char *id = ec_node_id(n);
		char *d;
		if (ec_comp_item_get_grp(i) == last)
			continue;
		last = ec_comp_item_get_grp(i);
		sym_assert(nwh < NHLP, "bounded");
		d = ec_node_desc(n);
		sym_assert(d != NULL && strlen(d) < 16, "described");
		strcpy(wh[nwh].d, d);
		ec_free(d);
		strcpy(wh[nwh].h, id[0] == 'A' ? "HA" : "HT");
		nwh++;
	}
	ec_comp_free(c);
}
static void check_helps(struct ec_editline_help *h, ssize_t n)
{
	unsigned i;
	sym_assert(n == (ssize_t)nwh, "one help per node that can read the next word");
	for (i = 0; i < nwh && n == (ssize_t)nwh; i++)
		sym_assert(!strcmp(h[i].desc, wh[i].d) && !strcmp(h[i].help, wh[i].h), "description and closest help");
}
static void type_line(void)
{
	unsigned len = h_str(typed, N, "line"), cur, i;

	for (i = 0; i < len; i++)
		sym_assume(typed[i] != '\n');
	cur = sym_choice(len + 1, "cursor");
	li.buffer = typed;
	li.cursor = typed + cur;
	li.lastchar = typed + len;
	memcpy(before, typed, cur);
}
void h_line(void)
{
	struct ec_editline *e;
	struct ec_comp *c;
	struct ec_comp_item *i;
	struct ec_editline_help *hp = NULL;
	char *s, *lcp_ = NULL, want[64] = "", *p;
	unsigned k = sym_choice(3, "grammar"), key = sym_choice(2, "key"), nf = 0, np = 0, j;
	ssize_t n;
	int r;

	G = gram(k);
	sym_assert(G != NULL, "grammar built");
	sym_part();
	type_line();
	e = open_el(0);
	sym_assert(e != NULL, "created");
	ec_editline_set_node(e, G);
	s = ec_editline_curline(e, true);
	sym_assert(s != NULL && !strcmp(s, before), "the text before the cursor");
	ec_free(s);
	s = ec_editline_curline(e, false);
	sym_assert(s != NULL && !strcmp(s, typed), "the whole line");
	ec_free(s);
	if (key) {
		want_helps(before, typed);
		n = ec_editline_get_helps(e, before, typed, &hp);
		check_helps(hp, n);
		ec_editline_free_helps(hp, n);
		r = ec_editline_complete(EL, '?');
		sym_assert(r == CC_REDISPLAY && inserted[0] == 0, "help inserts nothing");
		close_out();
		p = outbuf;
		while (*p == '\n')
			p++;
		for (j = 0; j < nwh; j++) {
			char w[64];
			snprintf(w, sizeof(w), "%-20s %s\n", wh[j].d, wh[j].h);
			sym_assert(!strncmp(p, w, strlen(w)), "the helps are shown");
			p += strlen(w);
		}
		sym_assert(*p == 0, "no other help");
		sym_cover("help");
	} else {
		c = ec_complete(G, before);
		sym_assert(c != NULL, "completed");
		EC_COMP_FOREACH(i, c, EC_COMP_FULL | EC_COMP_PARTIAL) {
			const char *m = ec_comp_item_get_completion(i);
			if (ec_comp_item_get_type(i) == EC_COMP_FULL)
				nf++;
			else
				np++;
			if (lcp_ == NULL) {
				lcp_ = want;
				strcpy(want, m);
			}
			for (j = 0; want[j] && want[j] == m[j]; j++)
				;
			want[j] = 0;
		}
		ec_comp_free(c);
		if (want[0] && nf == 1 && np == 0)
			strcat(want, " ");
		r = ec_editline_complete(EL, '\t');
		sym_assert(!strcmp(inserted, want), "the text common to the proposals for what precedes the cursor is inserted");
		sym_assert(r == (want[0] ? CC_REFRESH : CC_REDISPLAY), "the screen is redrawn when something is listed");
		sym_cover(want[0] ? "inserted" : "listed");
		close_out();
	}
	ec_editline_free(e);
	ec_node_free(G);
	fin();
}
/* suggestions for a line, and reading a line */
static int ok_begin(const char *b)
{
	struct ec_pnode *p = ec_parse(G, b);
	struct ec_comp *c = ec_complete(G, b);
	int r;
	sym_assert(p != NULL && c != NULL, "parsed and completed");
	r = ec_pnode_matches(p) || ec_comp_count(c, EC_COMP_ALL) > 0;
	ec_pnode_free(p);
	ec_comp_free(c);
	return r;
}
void h_suggest(void)
{
	struct ec_editline *e;
	struct ec_editline_help *hp = NULL;
	struct ec_pnode *p, *q;
	char *full = NULL;
	unsigned k = sym_choice(3, "grammar"), what = sym_choice(3, "what"), len, i;
	int pos = -1, want = -1;
	ssize_t n;

	G = gram(k);
	sym_assert(G != NULL, "grammar built");
	sym_part();
	type_line();
	len = strlen(typed);
	e = open_el(0);
	sym_assert(e != NULL, "created");
	ec_editline_set_node(e, G);
	if (what < 2) {
		for (i = len + 1; i-- > 0;) {
			if (i > 0 && !B(blank(typed[i - 1])))
				continue;
			memcpy(before, typed, i);
			before[i] = 0;
			if (ok_begin(before)) {
				want = i;
				break;
			}
		}
		if (want >= 0)
			want_helps(before, before);
		else
			nwh = 0;
		n = ec_editline_get_suggestions(e, &hp, what ? &full : NULL, what ? &pos : NULL);
		check_helps(hp, n);
		if (what) {
			sym_assert(full != NULL && !strcmp(full, typed), "the line is returned");
			if (want >= 0)
				sym_assert(pos == want, "the position is the end of the longest beginning that can be continued");
			ec_free(full);
		}
		ec_editline_free_helps(hp, n);
		sym_assert(ec_editline_get_suggestions(NULL, &hp, NULL, NULL) < 0 &&
			   ec_editline_get_suggestions(e, NULL, NULL, NULL) < 0, "missing arguments are refused");
		sym_cover(want > 0 ? "beginning" : "start");
	} else {
		gets_line = typed;
		p = ec_editline_parse(e, G);
		q = ec_parse(G, typed);
		sym_assert(p != NULL && q != NULL && ec_pnode_matches(p) == ec_pnode_matches(q) && ec_pnode_len(p) == ec_pnode_len(q) &&
			   ec_pnode_get_node(p) == G, "the typed line is parsed with the grammar");
		ec_pnode_free(p);
		ec_pnode_free(q);
		gets_line = NULL;
		sym_assert(ec_editline_parse(e, G) == NULL, "no line, nothing parsed");
	}
	ec_editline_free(e);
	ec_node_free(G);
	fin();
}
/* any one memory request fails */
#define JUDGE(ok, what) do { \
	int ok_ = !!(ok); \
	h_disarm(); \
	sym_assert(ok_ || h_failed, "fails only when memory runs out: " what); \
	sym_assert(!ok_ || !h_failed, "running out of memory is reported: " what); \
	if (ok_) sym_cover("done"); else sym_cover("failed"); \
} while (0)
void h_eloom(void)
{
	static const char *lines[] = { "", "a", "ab ", "ab x", "ab" };
	struct ec_editline *e = NULL;
	struct ec_editline_help *hp = NULL;
	struct ec_comp *c;
	struct ec_pnode *p;
	unsigned k = sym_choice(3, "grammar"), op = sym_choice(9, "op");
	uint32_t at = sym_u32("failing");
	char *s = NULL;
	ssize_t n;
	int r;

	G = gram(k);
	sym_assert(G != NULL, "grammar built");
	strcpy(typed, lines[sym_choice(5, "line")]);
	li.buffer = typed;
	li.cursor = li.lastchar = typed + strlen(typed);
	sym_part();
	if (op == 0) {
		h_arm(at);
		e = open_el(0);
		JUDGE(e != NULL, "creation");
		goto end;
	}
	e = open_el(0);
	sym_assert(e != NULL, "created");
	ec_editline_set_node(e, G);
	c = ec_complete(G, typed);
	sym_assert(c != NULL, "completed");
	switch (op) {
	case 1:
		h_arm(at);
		s = ec_editline_append_chars(c);
		n = ec_comp_count(c, EC_COMP_FULL | EC_COMP_PARTIAL);
		if (n == 0)
			break;
		JUDGE(s != NULL, "text to append");
		ec_free(s);
		break;
	case 2:
		want_helps(typed, typed);
		h_arm(at);
		n = ec_editline_get_helps(e, typed, typed, &hp);
		JUDGE(n >= 0, "helps");
		if (n >= 0)
			check_helps(hp, n);
		else
			sym_assert(hp == NULL, "no help left behind");
		ec_editline_free_helps(hp, n < 0 ? 0 : n);
		break;
	case 3:
		h_arm(at);
		s = ec_editline_curline(e, false);
		JUDGE(s != NULL, "current line");
		ec_free(s);
		break;
	case 4: case 5:
		h_arm(at);
		r = ec_editline_complete(EL, op == 4 ? '\t' : '?');
		JUDGE(r != CC_ERROR, "completion key");
		if (r == CC_ERROR)
			sym_assert(inserted[0] == 0, "nothing inserted");
		break;
	case 6:
		h_arm(at);
		n = ec_editline_get_suggestions(e, &hp, &s, &r);
		JUDGE(n >= 0, "suggestions");
		if (n < 0)
			sym_assert(hp == NULL, "nothing left behind");
		ec_editline_free_helps(hp, n < 0 ? 0 : n);
		ec_free(s);
		break;
	case 7:
		gets_line = typed;
		h_arm(at);
		p = ec_editline_parse(e, G);
		JUDGE(p != NULL, "reading a line");
		ec_pnode_free(p);
		break;
	case 8:
		h_arm(at);
		r = ec_editline_set_prompt(e, "x");
		if (r == 0)
			r = ec_editline_set_prompt_esc(e, "y", '%');
		if (r == 0)
			r = ec_editline_set_history(e, 5, "file");
		JUDGE(r == 0, "settings");
		sym_assert(el_prompt(EL) != NULL && (el_hist != NULL || r < 0), "still usable");
		break;
	}
	ec_comp_free(c);
end:
	h_disarm();
	ec_editline_free(e);
	ec_node_free(G);
	fin();
}
