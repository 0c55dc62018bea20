/* P24: interactive layer over a stand-in for libedit */
#include "harness.h"
#include <ecoli_editline.h>
#include <histedit.h>
#include <stdarg.h>
#ifndef N
#define N 3
#endif
#define B(x) sym_concrete(!!(x))

/* ---- stand-in for libedit ---- */
static int el_live, fault = -1, step, width = 20;
static void *el_data;
static char *(*el_prompt)(EditLine *);
static History *el_hist;
static unsigned char (*el_fn)(EditLine *, int);
static LineInfo li;
static char inserted[64];
static const char *gets_line;
static FILE *out;
static char *outbuf;
static size_t outlen;
#define NH 8
static struct { int live, size, unique, entered, saved, loaded; char last[8]; } hist[NH];
static int nh, load_failed;
static char el_obj;
#define EL ((EditLine *)&el_obj)
static int fails(void) { return step++ == fault; }
static int hid(History *h)
{
	int i = (int)((uintptr_t)h - 1);
	sym_assert(i >= 0 && i < nh && hist[i].live, "only a live history is used");
	return i;
}
EditLine *el_init(const char *name, FILE *a, FILE *b, FILE *c)
{
	(void)name; (void)a; (void)b; (void)c;
	if (fails())
		return NULL;
	el_live++;
	return EL;
}
void el_end(EditLine *el)
{
	sym_assert(el == EL && el_live == 1, "released once");
	el_live = 0;
}
int el_set(EditLine *el, int op, ...)
{
	va_list ap;
	History *h = NULL;
	int r = 0;

	sym_assert(el == EL && el_live, "libedit is initialised");
	va_start(ap, op);
	if (op == EL_HIST) {
		(void)va_arg(ap, int (*)(History *, HistEvent *, int, ...));
		h = va_arg(ap, History *);
		if (h == NULL) { /* forgetting the history cannot fail */
			el_hist = NULL;
			va_end(ap);
			return 0;
		}
	}
	if (fails()) {
		va_end(ap);
		return -1;
	}
	switch (op) {
	case EL_CLIENTDATA: el_data = va_arg(ap, void *); break;
	case EL_PROMPT: case EL_PROMPT_ESC: el_prompt = va_arg(ap, char *(*)(EditLine *)); break;
	case EL_HIST:
		el_hist = h;
		break;
	case EL_ADDFN:
		(void)va_arg(ap, char *);
		(void)va_arg(ap, char *);
		el_fn = va_arg(ap, unsigned char (*)(EditLine *, int));
		break;
	default: break;
	}
	va_end(ap);
	return r;
}
int el_get(EditLine *el, int op, ...)
{
	va_list ap;
	const char *s;

	sym_assert(el == EL && el_live, "libedit is initialised");
	va_start(ap, op);
	switch (op) {
	case EL_CLIENTDATA: *va_arg(ap, void **) = el_data; break;
	case EL_GETFP:
		(void)va_arg(ap, int);
		*va_arg(ap, FILE **) = out;
		break;
	case EL_GETTC:
		s = va_arg(ap, const char *);
		*va_arg(ap, int *) = s[0] == 'c' ? width : 24;
		break;
	default: sym_assert(0, "known request"); break;
	}
	va_end(ap);
	return 0;
}
const LineInfo *el_line(EditLine *el)
{
	sym_assert(el == EL && el_live, "libedit is initialised");
	return &li;
}
int el_insertstr(EditLine *el, const char *s)
{
	sym_assert(el == EL && el_live, "libedit is initialised");
	sym_assert(strlen(inserted) + strlen(s) < sizeof(inserted), "bounded");
	strcat(inserted, s);
	return 0;
}
const char *el_gets(EditLine *el, int *n)
{
	sym_assert(el == EL && el_live, "libedit is initialised");
	if (el_hist)
		hid(el_hist); /* what the user browses */
	if (el_prompt)
		sym_assert(el_prompt(el) != NULL, "there is always a prompt");
	*n = gets_line ? (int)strlen(gets_line) : -1;
	return gets_line;
}
History *history_init(void)
{
	if (fails() || nh == NH)
		return NULL;
	hist[nh].live = 1;
	return (History *)(uintptr_t)++nh;
}
void history_end(History *h) { hist[hid(h)].live = 0; }
int history(History *h, HistEvent *ev, int op, ...)
{
	va_list ap;
	int i = hid(h);

	(void)ev;
	if (fails()) {
		if (op == H_LOAD)
			load_failed = 1;
		return -1;
	}
	va_start(ap, op);
	switch (op) {
	case H_SETSIZE: hist[i].size = va_arg(ap, int); break;
	case H_SETUNIQUE: hist[i].unique = va_arg(ap, int); break;
	case H_LOAD: hist[i].loaded++; break;
	case H_ENTER:
		hist[i].entered++;
		strncpy(hist[i].last, va_arg(ap, const char *), 7);
		break;
	case H_SAVE: hist[i].saved++; break;
	default: sym_assert(0, "known request"); break;
	}
	va_end(ap);
	return 0;
}
static struct ec_editline *open_el(unsigned flags)
{
	struct ec_editline *e;
	if (!out) {
		out = open_memstream(&outbuf, &outlen);
		sym_assert(out != NULL, "stream");
	}
	e = ec_editline("t", out, out, out, flags);
	return e;
}
static void close_out(void)
{
	if (out)
		fclose(out);
	out = NULL;
}
static int live_hist(void)
{
	int i, n = 0;
	for (i = 0; i < nh; i++)
		n += hist[i].live;
	return n;
}
static void fin(void)
{
	close_out();
	free(outbuf);
	sym_assert(!el_live && live_hist() == 0, "everything of libedit is released");
	h_end();
}

/* ---- creation ---- */
void h_create(void)
{
	struct ec_editline *e;
	unsigned flags = sym_choice(16, "flags");

	fault = sym_choice(20, "fault") - 1;
	e = open_el(flags);
	if (e != NULL) {
		sym_assert(ec_editline_get_el(e) == EL && el_data == e, "the instance is attached");
		sym_assert((el_hist != NULL) == !(flags & EC_EDITLINE_DISABLE_HISTORY), "history unless disabled");
		sym_assert((el_fn != NULL) == !(flags & EC_EDITLINE_DISABLE_COMPLETION), "completion unless disabled");
		sym_cover("created");
	} else {
		sym_assert(fault >= 0 && step > fault, "creation fails only when libedit fails");
		sym_cover("failed");
	}
	ec_editline_free(e);
	sym_assert(ec_editline("t", NULL, out, out, flags) == NULL && ec_editline("t", out, NULL, out, flags) == NULL &&
		   ec_editline("t", out, out, NULL, flags) == NULL, "a missing stream is refused");
	fin();
}
/* ---- history and lines ---- */
static char line[N + 2];
static int blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
#ifndef OPS
#define OPS 3
#endif
void h_history(void)
{
	struct ec_editline *e;
	unsigned i, op, len;
	int on, file = 0, isblank_, h, r, before, saved;
	char *s, *pr = NULL;

	on = sym_choice(2, "hist");
	e = open_el(on ? 0 : EC_EDITLINE_DISABLE_HISTORY);
	sym_assert(e != NULL, "created");
	for (i = 0; i < OPS; i++) {
		op = sym_choice(7, "op");
		if (i == 1)
			sym_part();
		switch (op) {
		case 0: case 1: case 2: /* another history */
			fault = sym_choice(2, "fault") ? (int)sym_choice(5, "at") : -1;
			step = load_failed = 0;
			r = ec_editline_set_history(e, op == 0 ? 0 : 5, op == 2 ? "file" : NULL);
			fault = -1;
			if (r == 0) {
				on = op != 0;
				file = op == 2;
			} else {
				on = 0;
				sym_cover("refused");
			}
			sym_assert(live_hist() == on, "one history at most is kept");
			sym_assert((el_hist != NULL) == on, "libedit uses the history that is kept");
			if (on) {
				h = hid(el_hist);
				sym_assert(hist[h].size == 5 && hist[h].unique == 1 && hist[h].loaded == (file && !load_failed), "history set up");
			}
			break;
		case 3: /* end of file */
			gets_line = NULL;
			sym_assert(ec_editline_gets(e) == NULL, "no line");
			break;
		case 4: case 5: /* a line, with or without newline */
			len = h_str(line, N, "line");
			isblank_ = 1;
			for (r = 0; r < (int)len; r++) {
				sym_assume(line[r] != '\n');
				if (!B(blank(line[r])))
					isblank_ = 0;
			}
			if (op == 4)
				line[len] = '\n', line[len + 1] = 0;
			gets_line = line;
			h = on ? hid(el_hist) : 0;
			before = hist[h].entered;
			saved = hist[h].saved;
			s = ec_editline_gets(e);
			line[len] = 0;
			sym_assert(s != NULL && !strcmp(s, line), "the line that was typed is returned");
			sym_assert(hist[h].entered == before + (on && !isblank_), "exactly the lines that are not blank enter the history");
			if (on && !isblank_) {
				sym_assert(!strcmp(hist[h].last, line), "the typed line enters the history");
				sym_assert(hist[h].saved == saved + file, "the history is saved in its file");
				sym_cover("entered");
			}
			ec_free(s);
			line[0] = 0;
			break;
		default: /* prompt */
			r = sym_choice(4, "prompt");
			pr = r == 0 ? NULL : r == 1 ? "p1" : r == 2 ? "p2" : "";
			fault = sym_choice(2, "fault") ? 0 : -1;
			step = 0;
			h = sym_choice(2, "esc");
			r = h ? ec_editline_set_prompt_esc(e, pr, '%') : ec_editline_set_prompt(e, pr);
			sym_assert((r == 0) == !(h && fault == 0), "prompt set");
			fault = -1;
			if (r == 0 && pr)
				sym_assert(!strcmp(el_prompt(EL), pr), "the prompt is the one that was set");
			sym_assert(el_prompt(EL) != NULL, "there is always a prompt");
			break;
		}
	}
	ec_editline_free(e);
	fin();
}

/* ---- proposals ---- */
#ifndef ITEMS
#define ITEMS 3
#endif
#ifndef NL
#define NL 2
#endif
static struct { int type, second, has; char full[NL + 1], disp[3]; unsigned st; } it[ITEMS];
static unsigned ni;
static struct ec_node *nd[2];
static int cpl(const struct ec_node *node, struct ec_comp *comp, const struct ec_strvec *sv)
{
	unsigned i, j;
	char start[NL + 1];
	struct ec_comp_item *x;

	(void)sv;
	for (i = 0; i < ni; i++) {
		if (it[i].second != (node == nd[1]))
			continue;
		memcpy(start, it[i].full, it[i].st);
		start[it[i].st] = 0;
		j = it[i].type == EC_COMP_UNKNOWN;
		x = ec_comp_add_item(comp, node, it[i].type, j || !it[i].has ? NULL : start, j ? NULL : it[i].full);
		sym_assert(x != NULL, "item added");
		if (it[i].disp[0] && !j)
			sym_assert(ec_comp_item_set_display(x, it[i].disp) == 0, "display set");
	}
	return 0;
}
static int ok_parse;
static int prs(const struct ec_node *node, struct ec_pnode *st, const struct ec_strvec *sv)
{
	(void)node; (void)st; (void)sv;
	return ok_parse && ec_strvec_len(sv) ? 1 : EC_PARSE_NOMATCH;
}
static char *dsc(const struct ec_node *node) { return ec_strdup(node == nd[0] ? "D0" : "D1"); }
static struct ec_node_type ty = { .name = "probe", .parse = prs, .complete = cpl, .desc = dsc, .size = 0 };
static const char *helps_[3];
static struct ec_node *top;
static void items(void)
{
	unsigned i;

	sym_assert(ec_node_type_register(&ty, true) == 0, "type registered");
	ni = sym_choice(ITEMS + 1, "items");
	for (i = 0; i < ni; i++) {
		it[i].type = 1 << sym_choice(3, "type");
		it[i].second = i && (it[i - 1].second || sym_choice(2, "second"));
		it[i].has = 1;
		if (it[i].type == EC_COMP_UNKNOWN)
			continue;
		h_strn(it[i].full, NL, "full");
		it[i].st = NL * sym_choice(2, "whole");
		if (it[i].st == 0)
			it[i].st = sym_choice(2, "start");
		if (it[i].st == 0 && i == 0)
			it[i].has = sym_choice(2, "has");
		if (i == 1 && sym_choice(2, "disp"))
			h_strn(it[i].disp, 1, "disp");
	}
	sym_part();
	nd[0] = ec_node("probe", "p0");
	nd[1] = ec_node("probe", "p1");
	top = EC_NODE_OR("top", ec_node_clone(nd[0]), nd[1]);
	ec_node_free(nd[0]);
	sym_assert(top != NULL, "grammar built");
}
static char common[NL + 1];
static int has_common;
static unsigned nfull, nshown;
static void lcp(void)
{
	unsigned i, k;
	for (i = 0; i < ni; i++) {
		const char *c = it[i].has ? it[i].full + it[i].st : "";
		if (it[i].type == EC_COMP_UNKNOWN)
			continue;
		nshown++;
		nfull += it[i].type == EC_COMP_FULL;
		if (!has_common) {
			strcpy(common, c);
			has_common = 1;
			continue;
		}
		for (k = 0; common[k] && c[k] && B(common[k] == c[k]); k++)
			;
		common[k] = 0;
	}
}
static const char *disp(unsigned i) { return it[i].disp[0] ? it[i].disp : it[i].full; }
/* the shown items in the order of iteration: first node, then the second one */
static unsigned shown(unsigned *o)
{
	unsigned i, n = 0;
	for (i = 0; i < ni; i++)
		if (it[i].type != EC_COMP_UNKNOWN)
			o[n++] = i;
	return n;
}
void h_items(void)
{
	struct ec_comp *c;
	char *a, **m = NULL;
	ssize_t n;
	unsigned o[ITEMS], k, i;

	items();
	lcp();
	c = ec_complete(top, "");
	sym_assert(c != NULL, "completed");
	a = ec_editline_append_chars(c);
	if (!has_common)
		sym_assert(a == NULL || a[0] == 0, "nothing to append without a proposal");
	else {
		sym_assert(a != NULL && !strcmp(a, common), "what is appended is the longest text common to all proposals");
		sym_cover("common");
	}
	ec_free(a);
	n = ec_editline_get_completions(c, &m);
	k = shown(o);
	sym_assert(n == (ssize_t)k, "one match per proposal");
	for (i = 0; i < k; i++)
		sym_assert(!strcmp(m[i], disp(o[i])), "the matches are the proposals");
	ec_editline_free_completions(m, n);
	ec_comp_free(c);
	ec_node_free(top);
	h_end();
}
/* the key bound to completion */
void h_key(void)
{
	struct ec_editline *e;
	unsigned i, k, o[ITEMS], pos, seen;
	int r, key, h;
	char *p;
	const char *d[4];

	items();
	for (i = 0; i < ni; i++) /* printable, to tell the columns apart */
		for (k = 0; k < NL && it[i].type != EC_COMP_UNKNOWN; k++) {
			sym_assume(it[i].full[k] > ' ' && it[i].full[k] < 127);
			sym_assume(it[i].disp[0] == 0 || (it[i].disp[0] > ' ' && it[i].disp[0] < 127));
		}
	lcp();
	e = open_el(0);
	sym_assert(e != NULL && el_fn != NULL, "created");
	ec_editline_set_node(e, top);
	key = sym_choice(2, "key") ? '?' : '\t';
	ok_parse = key == '?' && sym_choice(2, "valid");
	h = key == '?' ? sym_choice(6, "help") : 0;
	if (h >= 4)
		h = (h & 1 ? 3 : 1) | 4; /* an empty help is a help */
	if (h & 1)
		sym_assert(ec_dict_set(ec_node_attrs(nd[0]), "help", h & 4 ? "" : "H0", NULL) == 0, "help set");
	if (h & 2)
		sym_assert(ec_dict_set(ec_node_attrs(top), "help", "HT", NULL) == 0, "help set");
	li.buffer = line;
	li.cursor = line;
	li.lastchar = line;
	r = ec_editline_complete(EL, key);
	close_out();
	if (key == '?') {
		sym_assert(inserted[0] == 0 && r == CC_REDISPLAY, "help inserts nothing");
		/* one line for a valid command, then one per node that proposes */
		i = 0;
		if (ok_parse)
			d[i++] = "<return>", helps_[0] = "Validate command.";
		seen = 0;
		for (k = 0; k < ni; k++) {
			if (seen & (1u << it[k].second))
				continue;
			seen |= 1u << it[k].second;
			helps_[i] = !it[k].second && (h & 1) ? (h & 4 ? "" : "H0") : (h & 2) ? "HT" : "";
			d[i++] = it[k].second ? "D1" : "D0";
		}
		p = outbuf;
		while (*p == '\n')
			p++;
		for (k = 0; k < i; k++) {
			char want[64];
			snprintf(want, sizeof(want), "%-20s %s\n", d[k], helps_[k]);
			sym_assert(!strncmp(p, want, strlen(want)), "one help per possible next word, with the closest help");
			p += strlen(want);
		}
		sym_assert(*p == 0, "no other help");
		sym_cover("help");
	} else if (has_common && common[0]) {
		char want[NL + 2];
		strcpy(want, common);
		if (nshown == 1 && nfull == 1)
			strcat(want, " ");
		sym_assert(!strcmp(inserted, want), "the text common to all proposals is inserted");
		sym_assert(r == CC_REFRESH && outlen == 0, "and nothing is printed");
		sym_cover("inserted");
	} else {
		sym_assert(inserted[0] == 0 && r == CC_REDISPLAY, "nothing to insert");
		/* every proposal is printed, sorted */
		k = shown(o);
		p = outbuf;
		for (i = 0; i < k; i++) {
			char w[NL + 1];
			unsigned j, q;
			while (*p == '\n' || *p == ' ')
				p++;
			for (j = 0; p[j] && p[j] != '\n' && p[j] != ' '; j++)
				;
			sym_assert(j > 0 && j <= NL, "as many matches are printed as there are proposals");
			memcpy(w, p, j);
			w[j] = 0;
			for (q = 0; q < k; q++)
				if (o[q] < ITEMS && !strcmp(w, disp(o[q])))
					break;
			sym_assert(q < k, "every printed match is a proposal");
			o[q] = ITEMS;
			for (pos = 0; pos < k; pos++)
				if (o[pos] < ITEMS)
					sym_assert(strcasecmp(w, disp(o[pos])) <= 0, "matches are printed in order");
			p += j;
		}
		while (*p == '\n' || *p == ' ')
			p++;
		sym_assert(*p == 0, "nothing else is printed");
		sym_cover("printed");
	}
	ec_editline_free(e);
	ec_node_free(top);
	fin();
}
/* the columns: each match once, in order, within the width of the terminal */
#ifndef MM
#define MM 12
#endif
void h_cols(void)
{
	static const unsigned widths[] = { 0, 1, 9, 20, 24, 80 };
	static char m[MM][24];
	static const char *pm[MM];
	struct ec_editline *e;
	unsigned n, i, j, k, max = 0, ncols, lens, nw = 0, col, q, used = 0;
	char *p;

	n = sym_choice(MM + 1, "n");
	width = widths[sym_choice(6, "width")];
	lens = sym_choice(4, "lens");
	sym_part();
	for (i = 0; i < n; i++) {
		k = lens == 0 ? 1 : lens == 1 ? 1 + i % 5 : lens == 2 ? (i == n / 2 ? 21 : 2) : 6;
		for (j = 0; j < k; j++)
			m[i][j] = "nmlkJIHGfedcBA"[(i * 5 + j) % 14];
		m[i][k] = 0;
		pm[i] = m[i];
	}
	if (n) {
		m[n - 1][0] = sym_u8("byte");
		sym_assume(m[n - 1][0] > ' ' && m[n - 1][0] < 127);
	}
	e = open_el(0);
	sym_assert(e != NULL, "created");
	sym_assert(ec_editline_print_cols(e, pm, n) == 0, "printed");
	close_out();
	p = outbuf;
	while (*p) {
		for (col = ncols = 0; p[col] && p[col] != '\n';) {
			if (p[col] == ' ') {
				col++;
				continue;
			}
			for (k = col; p[k] && p[k] != '\n' && p[k] != ' '; k++)
				;
			for (q = 0; q < n; q++)
				if (!(used & (1u << q)) && strlen(m[q]) == k - col && B(!memcmp(m[q], p + col, k - col)))
					break;
			sym_assert(q < n, "what is printed is a match not printed yet");
			used |= 1u << q;
			for (i = 0; i < n; i++)
				if (!(used & (1u << i)))
					sym_assert(strcasecmp(m[q], m[i]) <= 0, "in order");
			nw++;
			ncols++;
			max = col = k;
		}
		if (ncols > 1)
			sym_assert(max <= (unsigned)width, "columns fit in the width of the terminal"), sym_cover("columns");
		p += col;
		if (*p)
			p++;
	}
	sym_assert(nw == n, "every match is printed");
	ec_editline_free(e);
	fin();
}
/* long lines; what is parsed is the line */
#ifndef LONG
#define LONG 520
#endif
void h_long(void)
{
	static const unsigned lens[] = { 0, 1, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 513 };
	static char l[LONG], want[LONG];
	struct ec_editline *e;
	struct ec_node *any = ec_node("any", "y"), *other = ec_node("any", "x");
	struct ec_pnode *p;
	const struct ec_strvec *sv;
	unsigned n = lens[sym_choice(13, "len")], at, i, nl = sym_choice(2, "nl");
	char *s;

	sym_assert(any != NULL && other != NULL, "nodes created");
	for (i = 0; i < n; i++)
		l[i] = 'a' + i % 26;
	at = n ? (sym_choice(2, "where") ? n - 1 : n / 2) : 0;
	if (n) {
		l[at] = sym_u8("byte");
		sym_assume(l[at] != 0 && l[at] != '\n');
	}
	e = open_el(0);
	sym_assert(e != NULL, "created");
	ec_editline_set_node(e, other);
	sym_assert(ec_editline_get_node(e) == other, "the grammar is the one that was set");
	li.buffer = l;
	li.cursor = l + at;
	li.lastchar = l + n;
	s = ec_editline_curline(e, false);
	sym_assert(s != NULL && !strcmp(s, l), "the whole line");
	ec_free(s);
	s = ec_editline_curline(e, true);
	sym_assert(s != NULL && strlen(s) == at && !memcmp(s, l, at), "the text before the cursor");
	ec_free(s);
	strcpy(want, l);
	if (nl)
		l[n] = '\n';
	gets_line = l;
	s = ec_editline_gets(e);
	sym_assert(s != NULL && !strcmp(s, want), "the line that was typed is returned");
	ec_free(s);
	p = ec_editline_parse(e, any);
	sym_assert(p != NULL && ec_pnode_get_node(p) == any && ec_pnode_matches(p), "parsed with the grammar given");
	sv = ec_pnode_get_strvec(p);
	sym_assert(ec_strvec_len(sv) == 1 && !strcmp(ec_strvec_val(sv, 0), want), "the typed line is parsed");
	ec_pnode_free(p);
	ec_editline_free(e);
	ec_node_free(any);
	ec_node_free(other);
	fin();
}
