/* P22: completion of file names over a modelled file system */
#include "harness.h"
#ifndef N
#define N 3
#endif
#ifndef NE
#define NE 2
#endif
#ifndef NL
#define NL 2
#endif
#define B(x) sym_concrete(!!(x))
/* directories: the current one, the root and d; f is a file; all hold the same entries but the root, which is empty */
static struct { char name[NL + 1]; unsigned char type; int dir; unsigned mode; } ent[NE];
static unsigned ne, fail_read, fail_open, fail_stat;
static int opened, pos, nread;
static struct dirent de;
enum { NOENT, FILE_, EMPTYDIR, DIR_ };
static int same(const char *p, const char *q)
{
	while (*q && *p && B(*p == *q))
		p++, q++;
	return !*p && !*q;
}
/* walk the components, empty ones and . included */
static int kind(const char *p)
{
	enum { CWD, ROOT, SUB, PLAIN } at = CWD;
	char c[3];
	unsigned n;

	if (!*p)
		return NOENT;
	if (B(*p == '/'))
		at = ROOT;
	while (*p) {
		if (B(*p == '/')) {
			if (at == PLAIN) /* not a directory */
				return NOENT;
			p++;
			continue;
		}
		for (n = 0; *p && !B(*p == '/'); p++) {
			if (n == 2)
				return NOENT;
			c[n++] = *p;
		}
		c[n] = 0;
		if (same(c, "."))
			continue;
		if (at != CWD && !(at == SUB && same(c, "..")))
			return NOENT;
		at = at == SUB ? CWD : same(c, "d") ? SUB : same(c, "f") ? PLAIN : 9;
		if ((int)at == 9)
			return NOENT;
	}
	return at == PLAIN ? FILE_ : at == ROOT ? EMPTYDIR : DIR_;
}
int h_lstat(const char *path, struct stat *st)
{
	int k = kind(path);
	if (k == NOENT || fail_stat == 1) {
		errno = ENOENT;
		return -1;
	}
	memset(st, 0, sizeof(*st));
	st->st_mode = (k == FILE_ || fail_stat == 2) ? S_IFREG : S_IFDIR;
	return 0;
}
int h_stat(const char *path, struct stat *st) { return h_lstat(path, st); }
int h_fstatat(int fd, const char *name, struct stat *st, int flags)
{
	unsigned i;
	(void)flags;
	sym_assert(fd == 7 && opened, "entries are examined in the directory");
	for (i = 0; i < ne; i++)
		if (name == de.d_name ? (int)i == pos - 1 : same(name, ent[i].name))
			break;
	if (i == ne || ent[i].dir == 2) {
		errno = EACCES;
		return -1;
	}
	memset(st, 0, sizeof(*st));
	st->st_mode = ent[i].mode;
	return 0;
}
DIR *h_opendir(const char *path)
{
	int k = kind(path);
	sym_assert(k != NOENT && k != FILE_, "only the addressed directory is opened");
	if (fail_open) {
		errno = EACCES;
		return NULL;
	}
	sym_assert(!opened, "one directory at a time");
	opened = 1;
	pos = k == EMPTYDIR ? (int)ne : 0;
	return (DIR *)ent;
}
struct dirent *h_readdir(DIR *d)
{
	sym_assert(opened && d == (DIR *)ent, "directory stream is open");
	if (fail_read && nread++ == (int)fail_read - 1) {
		errno = EIO;
		return NULL;
	}
	if (pos == (int)ne)
		return NULL;
	memset(&de, 0, sizeof(de));
	strcpy(de.d_name, ent[pos].name);
	de.d_type = ent[pos].type;
	pos++;
	return &de;
}
int h_closedir(DIR *d)
{
	sym_assert(opened && d == (DIR *)ent, "directory stream closed once");
	opened = 0;
	return 0;
}
int h_dirfd(DIR *d)
{
	sym_assert(opened && d == (DIR *)ent, "directory stream is open");
	return 7;
}
static char in[N + 1], dname[N + 1], want[NE][N + NL + 2], disp[NE][NL + 2];
static int wtype[NE], seen[NE];
static void run(int wrap)
{
	struct ec_node *n, *top;
	struct ec_strvec *v;
	struct ec_comp *c;
	struct ec_comp_item *it;
	unsigned i, slash = 0, len, nw = 0, lim, bad = 0, others = 0;
	int k;

	len = strlen(in);
	for (i = 0; i < len; i++)
		if (B(in[i] == '/'))
			slash = i + 1;
	memcpy(dname, in, slash);
	k = slash ? kind(dname) : DIR_;
	if (k == EMPTYDIR || k == DIR_) {
		lim = k == EMPTYDIR ? 0 : ne;
		for (i = 0; i < lim; i++) {
			unsigned bl = len - slash, j, el = strlen(ent[i].name);
			for (j = 0; j < bl && j < el && B(ent[i].name[j] == in[slash + j]); j++)
				;
			if (j < bl || (B(ent[i].name[0] == '.') && !(bl && B(in[slash] == '.'))))
				continue;
			strcpy(want[nw], dname);
			strcat(want[nw], ent[i].name);
			strcpy(disp[nw], ent[i].name);
			wtype[nw] = EC_COMP_FULL;
			if (ent[i].dir == 2)
				bad = 1;
			if (ent[i].dir == 1) {
				wtype[nw] = EC_COMP_PARTIAL;
				strcat(want[nw], "/");
				strcat(disp[nw], "/");
			}
			nw++;
		}
	} else
		bad = 1;
	if (fail_open || fail_read || fail_stat)
		bad = 1;
	n = ec_node("file", "F");
	sym_assert(n != NULL, "node created");
	top = n;
	if (wrap)
		top = EC_NODE_SEQ("s", ec_node_option("o", ec_node_str("k", "kk")), n);
	v = ec_strvec();
	sym_assert(ec_strvec_add(v, in) == 0, "word added");
	c = ec_complete_strvec(top, v);
	sym_assert(!opened, "the directory is closed");
	if (bad) {
		/* it cannot be read: nothing is proposed that does not exist */
		sym_cover("unreadable");
	} else
		sym_assert(c != NULL, "completion reports no error");
	if (c != NULL) {
		EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
			const char *s = ec_comp_item_get_str(it);
			if (ec_comp_item_get_node(it) != n) {
				others++;
				continue;
			}
			sym_assert(s != NULL, "a proposal has a text");
			for (i = 0; i < nw; i++)
				if (!seen[i] && !strcmp(s, want[i]) && wtype[i] == (int)ec_comp_item_get_type(it))
					break;
			sym_assert(i < nw, "every proposal is an entry of the directory, joined to the typed directory");
			seen[i] = 1;
			sym_assert(!strcmp(ec_comp_item_get_completion(it), want[i] + len), "the completion is the missing part");
			sym_assert(!strcmp(ec_comp_item_get_display(it), disp[i]), "only the name is displayed");
		}
		for (i = 0; i < nw && !bad; i++)
			sym_assert(seen[i], "every matching entry is proposed");
		sym_assert(wrap || others == 0, "nothing else is proposed");
	}
	if (nw && !bad)
		sym_cover("proposed");
	ec_comp_free(c);
	ec_strvec_free(v);
	ec_node_free(top);
	h_end();
}
static void entries(unsigned n)
{
	unsigned i, j, l, t;
	ne = n;
	for (i = 0; i < ne; i++) {
		l = 1 + sym_choice(NL, "len");
		h_strn(ent[i].name, l, "name");
		for (j = 0; j < l; j++)
			sym_assume(ent[i].name[j] != '/');
		t = sym_choice(5, "type");
		ent[i].type = t == 0 ? DT_DIR : t == 1 ? sym_u8("dtype") : DT_UNKNOWN;
		if (t == 1) /* a type that is known and is not a directory */
			sym_assume(ent[i].type != DT_DIR && ent[i].type != DT_UNKNOWN);
		ent[i].dir = t == 0 || t == 2 ? 1 : t == 4 ? 2 : 0;
		/* any permissions, and any type other than a directory for what is none */
		ent[i].mode = sym_u32("mode") & 0xffff;
		sym_assume(((ent[i].mode & S_IFMT) == S_IFDIR) == (ent[i].dir == 1));
	}
}
void h_file(void)
{
	entries(sym_choice(NE + 1, "ne"));
	sym_part();
	h_str(in, N, "in");
	run(sym_choice(2, "wrap"));
}
/* failing system calls */
void h_fault(void)
{
	unsigned f = sym_choice(6, "fault");
	if (f == 0)
		fail_open = 1;
	else if (f < 3)
		fail_stat = f;
	else
		fail_read = f - 2;
	entries(sym_choice(NE + 1, "ne"));
	sym_part();
	h_str(in, N, "in");
	run(0);
}
/* the node matches any word, and only one */
void h_parse(void)
{
	struct ec_node *n = ec_node("file", "F");
	struct ec_strvec *v = ec_strvec();
	struct ec_pnode *p;
	unsigned nw = sym_choice(3, "n"), i;
	for (i = 0; i < nw; i++) {
		h_str(in, N, "w");
		sym_assert(ec_strvec_add(v, in) == 0, "word added");
	}
	p = ec_parse_strvec(n, v);
	sym_assert(p != NULL && ec_pnode_matches(p) == (nw > 0) && ec_pnode_len(p) == (nw > 0), "matches one word, whatever it is");
	ec_pnode_free(p);
	ec_strvec_free(v);
	ec_node_free(n);
	h_end();
}
