/* libc model, executed symbolically. Written from the C/POSIX contracts. No libc headers on
 * purpose (FILE is ours). */
typedef unsigned long size_t;
typedef long ssize_t;
typedef unsigned char u8;
typedef unsigned long u64;
typedef __builtin_va_list va_list;
#define NULL ((void *)0)
#define va_start __builtin_va_start
#define va_end __builtin_va_end
#define va_arg __builtin_va_arg
#define va_copy __builtin_va_copy

int __sym_errno;
#define errno __sym_errno
#define EINVAL 22
#define ERANGE 34

void *malloc(size_t);
void *realloc(void *, size_t);
void free(void *);
void *memcpy(void *, const void *, size_t);
void *memset(void *, int, size_t);
size_t strlen(const char *);
unsigned long sym_concrete(unsigned long);
void abort(void);
int sym_is_symbolic(unsigned long);

/* ------------------------------------------------------------ ctype (C locale), branch-free */
static inline int rng(int c, int a, int b) { return (unsigned)(c - a) <= (unsigned)(b - a); }
int isspace(int c) { return (c == ' ') | rng(c, 9, 13); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int isdigit(int c) { return rng(c, '0', '9'); }
int isupper(int c) { return rng(c, 'A', 'Z'); }
int islower(int c) { return rng(c, 'a', 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isprint(int c) { return rng(c, 32, 126); }
int isgraph(int c) { return rng(c, 33, 126); }
int iscntrl(int c) { return rng(c, 0, 31) | (c == 127); }
int isxdigit(int c) { return isdigit(c) | rng(c, 'a', 'f') | rng(c, 'A', 'F'); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int tolower(int c) { return c + (isupper(c) << 5); }
int toupper(int c) { return c - (islower(c) << 5); }

/* ------------------------------------------------------------ strings */
char *strchr(const char *s, int c)
{
	for (;; s++) {
		if (*s == (char)c)
			return (char *)s;
		if (!*s)
			return NULL;
	}
}
char *strchrnul(const char *s, int c)
{
	for (;; s++)
		if (*s == (char)c || !*s)
			return (char *)s;
}
char *strrchr(const char *s, int c)
{
	size_t n = strlen(s) + 1;
	while (n-- > 0)
		if (s[n] == (char)c)
			return (char *)s + n;
	return NULL;
}
void *memchr(const void *p, int c, size_t n)
{
	const u8 *s = p;
	for (; n; n--, s++)
		if (*s == (u8)c)
			return (void *)s;
	return NULL;
}
int strncmp(const char *, const char *, size_t);
char *strstr(const char *h, const char *n)
{
	size_t l = strlen(n);
	for (;; h++) {
		if (strncmp(h, n, l) == 0)
			return (char *)h;
		if (!*h)
			return NULL;
	}
}
int strncasecmp(const char *a, const char *b, size_t n)
{
	for (; n; n--, a++, b++) {
		int x = tolower((u8)*a), y = tolower((u8)*b);
		if (x != y)
			return x - y;
		if (!x)
			return 0;
	}
	return 0;
}
size_t strspn(const char *s, const char *set)
{
	size_t n = 0;
	while (s[n] && strchr(set, s[n]))
		n++;
	return n;
}
size_t strcspn(const char *s, const char *set)
{
	size_t n = 0;
	while (s[n] && !strchr(set, s[n]))
		n++;
	return n;
}
char *strpbrk(const char *s, const char *set)
{
	s += strcspn(s, set);
	return *s ? (char *)s : NULL;
}
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }
char *strncpy(char *d, const char *s, size_t n)
{
	size_t i;
	for (i = 0; i < n && s[i]; i++)
		d[i] = s[i];
	for (; i < n; i++)
		d[i] = 0;
	return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *d = malloc(n);
	if (d)
		memcpy(d, s, n);
	return d;
}
size_t strnlen(const char *s, size_t k)
{
	size_t n = 0;
	while (n < k && s[n])
		n++;
	return n;
}
char *strndup(const char *s, size_t k)
{
	size_t n = strnlen(s, k);
	char *d = malloc(n + 1);
	if (d) {
		memcpy(d, s, n);
		d[n] = 0;
	}
	return d;
}
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char *stpncpy(char *d, const char *s, size_t n)
{
	size_t l = strnlen(s, n);
	strncpy(d, s, n);
	return d + l;
}
char *strncat(char *d, const char *s, size_t n)
{
	size_t l = strnlen(s, n), e = strlen(d);
	memcpy(d + e, s, l);
	d[e + l] = 0;
	return d;
}
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *memrchr(const void *p, int c, size_t n)
{
	const u8 *s = p;
	while (n-- > 0)
		if (s[n] == (u8)c)
			return (void *)(s + n);
	return NULL;
}
void *rawmemchr(const void *p, int c)
{
	const u8 *s = p;
	while (*s != (u8)c)
		s++;
	return (void *)s;
}
int memcmp(const void *, const void *, size_t);
void *memmem(const void *h, size_t hn, const void *n, size_t nn)
{
	const u8 *p = h;
	for (; hn >= nn; p++, hn--)
		if (memcmp(p, n, nn) == 0)
			return (void *)p;
	return NULL;
}
char *strtok_r(char *s, const char *set, char **save)
{
	char *e;
	if (s == NULL)
		s = *save;
	s += strspn(s, set);
	if (!*s) {
		*save = s;
		return NULL;
	}
	e = s + strcspn(s, set);
	if (*e)
		*e++ = 0;
	*save = e;
	return s;
}
char *strsep(char **ps, const char *set)
{
	char *s = *ps, *e;
	if (s == NULL)
		return NULL;
	e = s + strcspn(s, set);
	*ps = *e ? e + 1 : NULL;
	*e = 0;
	return s;
}
char *strcasestr(const char *h, const char *n)
{
	size_t l = strlen(n);
	for (;; h++) {
		if (strncasecmp(h, n, l) == 0)
			return (char *)h;
		if (!*h)
			return NULL;
	}
}
int strcoll(const char *a, const char *b) { return strncmp(a, b, (size_t)-1); }
void *reallocarray(void *p, size_t n, size_t sz)
{
	if (sz && n > (size_t)-1 / sz)
		return NULL;
	return realloc(p, n * sz);
}
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
char *strerror(int e) { (void)e; return (char *)"error"; }

/* ------------------------------------------------------------ numbers */
static unsigned long parse_mag(const char *nptr, char **end, int base, int *neg, int *over)
{
	const char *s = nptr;
	unsigned long v = 0;
	int any = 0;

	*neg = *over = 0;
	if (base < 0 || base == 1 || base > 36) {
		errno = EINVAL;
		if (end)
			*end = (char *)nptr;
		return 0;
	}
	while (isspace((u8)*s))
		s++;
	if (*s == '-') {
		*neg = 1;
		s++;
	} else if (*s == '+')
		s++;
	if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit((u8)s[2])) {
		base = 16;
		s += 2;
	} else if ((base == 0 || base == 2) && s[0] == '0' && (s[1] == 'b' || s[1] == 'B') &&
		   (s[2] == '0' || s[2] == '1')) { /* C23 strtol, as the real build uses */
		base = 2;
		s += 2;
	} else if (base == 0)
		base = s[0] == '0' ? 8 : 10;
	for (;; s++) {
		u8 c = *s;
		/* digit value without branching */
		unsigned int d = 255;
		d = rng(c, '0', '9') ? c - '0' : d;
		d = rng(c, 'a', 'z') ? c - 'a' + 10 : d;
		d = rng(c, 'A', 'Z') ? c - 'A' + 10 : d;
		if (d >= (unsigned)base)
			break;
		any = 1;
		if (!*over) {
			if (v > ~0UL / (unsigned)base || (v == ~0UL / (unsigned)base && d > ~0UL % (unsigned)base))
				*over = 1;
			else
				v = v * base + d;
		}
	}
	if (end)
		*end = (char *)(any ? s : nptr);
	return v;
}
long strtoll(const char *s, char **end, int base)
{
	int neg, over;
	unsigned long v = parse_mag(s, end, base, &neg, &over);
	if (neg) {
		if (over || v > 0x8000000000000000UL) {
			errno = ERANGE;
			return (long)0x8000000000000000UL;
		}
		return (long)(0 - v);
	}
	if (over || v > 0x7fffffffffffffffUL) {
		errno = ERANGE;
		return 0x7fffffffffffffffL;
	}
	return (long)v;
}
unsigned long strtoull(const char *s, char **end, int base)
{
	int neg, over;
	unsigned long v = parse_mag(s, end, base, &neg, &over);
	if (over) {
		errno = ERANGE;
		return ~0UL;
	}
	return neg ? 0 - v : v;
}
long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long atol(const char *s) { return strtoll(s, NULL, 10); }
long atoll(const char *s) { return strtoll(s, NULL, 10); }
int atoi(const char *s) { return (int)strtoll(s, NULL, 10); }

/* ------------------------------------------------------------ sorting */
static void isort(char *b, size_t n, size_t sz, int (*cmp)(const void *, const void *, void *), void *arg)
{
	char tmp[256];
	size_t i, j;
	if (sz > sizeof(tmp))
		abort();
	for (i = 1; i < n; i++) {
		memcpy(tmp, b + i * sz, sz);
		for (j = i; j > 0 && cmp(b + (j - 1) * sz, tmp, arg) > 0; j--)
			memcpy(b + j * sz, b + (j - 1) * sz, sz);
		memcpy(b + j * sz, tmp, sz);
	}
}
void qsort_r(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *, void *), void *arg)
{
	isort(b, n, sz, cmp, arg);
}
static int cmp2(const void *a, const void *b, void *f)
{
	return ((int (*)(const void *, const void *))f)(a, b);
}
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	isort(b, n, sz, cmp2, (void *)cmp);
}
/* ------------------------------------------------------------ stdio */
typedef struct sym_FILE {
	int mem;
	char **pp;
	size_t *ps;
	char *buf;
	size_t len, cap;
	int discard;
} FILE;
static FILE sym_stdout = { .discard = 1 }, sym_stderr = { .discard = 1 };
FILE *stdout = &sym_stdout, *stderr = &sym_stderr;

struct sink {
	FILE *f; /* or */
	char *d;
	size_t cap, n;
};
static void fput(FILE *f, char c)
{
	if (f->discard)
		return;
	if (f->len + 2 > f->cap) {
		f->cap = f->cap * 2 + 32;
		f->buf = realloc(f->buf, f->cap);
	}
	f->buf[f->len++] = c;
	f->buf[f->len] = 0;
}
static void out(struct sink *s, char c)
{
	if (s->f)
		fput(s->f, c);
	else if (s->n < s->cap)
		s->d[s->n] = c;
	s->n++;
}
static void outs(struct sink *s, const char *p, size_t n, int width, int left)
{
	size_t i;
	if (!left)
		for (i = n; (int)i < width; i++)
			out(s, ' ');
	if (s->f && s->f->discard)
		s->n += n;
	else
		for (i = 0; i < n; i++)
			out(s, p[i]);
	if (left)
		for (i = n; (int)i < width; i++)
			out(s, ' ');
}
static void fmt(struct sink *s, const char *f, va_list ap)
{
	for (; *f; f++) {
		int left = 0, zero = 0, width = 0, prec = -1, lng = 0;
		char buf[72];
		if (*f != '%') {
			out(s, *f);
			continue;
		}
		f++;
		for (;; f++) {
			if (*f == '-')
				left = 1;
			else if (*f == '0')
				zero = 1;
			else
				break;
		}
		if (*f == '*') {
			width = va_arg(ap, int);
			if (width < 0) {
				left = 1;
				width = -width;
			}
			f++;
		} else
			while (*f >= '0' && *f <= '9')
				width = width * 10 + *f++ - '0';
		if (*f == '.') {
			f++;
			prec = 0;
			if (*f == '*') {
				prec = va_arg(ap, int);
				f++;
			} else
				while (*f >= '0' && *f <= '9')
					prec = prec * 10 + *f++ - '0';
		}
		for (; *f == 'l' || *f == 'z' || *f == 'j' || *f == 'h' || *f == 't'; f++)
			if (*f != 'h')
				lng = 1;
		switch (*f) {
		case '%': out(s, '%'); break;
		case 'c':
			buf[0] = (char)va_arg(ap, int);
			outs(s, buf, 1, width, left);
			break;
		case 's': {
			const char *p = va_arg(ap, const char *);
			if (!p)
				p = "(null)";
			if (s->f && s->f->discard) {
				/* still touch the string: invalid pointers are errors */
				if (prec < 0)
					s->n += strlen(p);
			} else
				outs(s, p, prec >= 0 ? strnlen(p, prec) : strlen(p), width, left);
			break;
		}
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': {
			unsigned long v;
			int neg = 0, i = sizeof(buf), base = 10, dg = 0;
			const char *pre = "";
			if (*f == 'p') {
				v = (unsigned long)va_arg(ap, void *);
				base = 16;
				pre = "0x";
			} else {
				v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
				if (*f == 'x' || *f == 'X')
					base = 16;
				if (*f == 'd' || *f == 'i') {
					long sv = lng ? (long)v : (long)(int)v;
					v = sv < 0 ? 0 - (unsigned long)sv : (unsigned long)sv;
					neg = sv < 0;
				}
			}
			if (s->f && s->f->discard) {
				s->n++;
				break;
			}
			do {
				buf[--i] = (*f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v % base];
				v /= base;
				dg++;
			} while (v);
			while (dg < prec && i > 4) {
				buf[--i] = '0';
				dg++;
			}
			if (zero && !left && prec < 0)
				while ((int)sizeof(buf) - i < width - neg && i > 4)
					buf[--i] = '0';
			if (*pre) {
				buf[--i] = 'x';
				buf[--i] = '0';
			}
			if (neg)
				buf[--i] = '-';
			outs(s, buf + i, sizeof(buf) - i, width, left);
			break;
		}
		default: abort();
		}
	}
}
int vsnprintf(char *d, size_t n, const char *f, va_list ap)
{
	struct sink s = { NULL, d, n ? n - 1 : 0, 0 };
	fmt(&s, f, ap);
	if (n)
		d[s.n < n - 1 ? s.n : n - 1] = 0;
	return (int)s.n;
}
int snprintf(char *d, size_t n, const char *f, ...)
{
	va_list ap;
	int r;
	va_start(ap, f);
	r = vsnprintf(d, n, f, ap);
	va_end(ap);
	return r;
}
int vasprintf(char **p, const char *f, va_list ap)
{
	va_list ap2;
	int n;
	va_copy(ap2, ap);
	n = vsnprintf(NULL, 0, f, ap2);
	va_end(ap2);
	*p = malloc((size_t)n + 1);
	return vsnprintf(*p, (size_t)n + 1, f, ap);
}
int asprintf(char **p, const char *f, ...)
{
	va_list ap;
	int r;
	va_start(ap, f);
	r = vasprintf(p, f, ap);
	va_end(ap);
	return r;
}
int vfprintf(FILE *o, const char *f, va_list ap)
{
	struct sink s = { o, NULL, 0, 0 };
	fmt(&s, f, ap);
	return (int)s.n;
}
int fprintf(FILE *o, const char *f, ...)
{
	va_list ap;
	int r;
	va_start(ap, f);
	r = vfprintf(o, f, ap);
	va_end(ap);
	return r;
}
int printf(const char *f, ...) { (void)f; return 1; }
int puts(const char *s) { (void)strlen(s); return 1; }
int fputs(const char *s, FILE *f)
{
	for (; *s; s++)
		fput(f, *s);
	return 1;
}
int fputc(int c, FILE *f) { fput(f, (char)c); return c; }
int putc(int c, FILE *f) { fput(f, (char)c); return c; }
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
	size_t i;
	for (i = 0; i < sz * n; i++)
		fput(f, ((const char *)p)[i]);
	return n;
}
FILE *open_memstream(char **pp, size_t *ps)
{
	FILE *f = malloc(sizeof(*f));
	memset(f, 0, sizeof(*f));
	f->mem = 1;
	f->pp = pp;
	f->ps = ps;
	f->cap = 32;
	f->buf = malloc(f->cap);
	f->buf[0] = 0;
	return f;
}
int fflush(FILE *f)
{
	if (f && f->mem) {
		*f->pp = f->buf;
		*f->ps = f->len;
	}
	return 0;
}
int fclose(FILE *f)
{
	if (f->mem) {
		*f->pp = f->buf;
		*f->ps = f->len;
	}
	free(f);
	return 0;
}

/* ------------------------------------------------------------ POSIX ERE (leftmost-longest)
 * Glushkov automaton; simulation is free of branches on the text, so that symbolic text does not
 * split paths except on the extent of the match. */
#define RE_MAX 60
typedef struct {
	int n;               /* positions 1..n-1 */
	u64 first, last;
	int nullable;
	u64 follow[RE_MAX];
	u8 nr[RE_MAX];       /* number of ranges */
	u8 lo[RE_MAX][24], hi[RE_MAX][24];
	u8 neg[RE_MAX];
	int bol, eol;
	int basic, icase, newline, nosub; /* flags of regcomp */
} prog;
typedef struct { /* layout of glibc regex_t is opaque: we only use its first pointer */
	prog *p;
} regex_t_;
typedef struct {
	int so, eo;
} regmatch_t_;
struct frag {
	u64 first, last;
	int nullable;
};
struct rp {
	const char *s;
	prog *p;
	int err, depth;
};
static struct frag re_alt(struct rp *r);
static int re_range(struct rp *r, int pos, int lo, int hi)
{
	prog *p = r->p;
	if (p->nr[pos] >= 24) {
		r->err = 12;
		return -1;
	}
	p->lo[pos][p->nr[pos]] = (u8)lo;
	p->hi[pos][p->nr[pos]] = (u8)hi;
	p->nr[pos]++;
	return 0;
}
static struct frag re_pos(struct rp *r, int *pos)
{
	struct frag f = { 0, 0, 0 };
	if (r->p->n >= RE_MAX) {
		r->err = 12;
		*pos = 0;
		return f;
	}
	*pos = r->p->n++;
	f.first = f.last = 1UL << *pos;
	return f;
}
static int re_class(struct rp *r, int pos, const char *s)
{
	static const struct { const char *n; u8 r[8]; } t[] = {
		{ "alnum:]", { 'a', 'z', 'A', 'Z', '0', '9' } }, { "alpha:]", { 'a', 'z', 'A', 'Z' } },
		{ "digit:]", { '0', '9' } }, { "space:]", { ' ', ' ', 9, 13 } }, { "blank:]", { ' ', ' ', 9, 9 } },
		{ "upper:]", { 'A', 'Z' } }, { "lower:]", { 'a', 'z' } }, { "xdigit:]", { '0', '9', 'a', 'f', 'A', 'F' } },
		{ "print:]", { 32, 126 } },
	};
	unsigned int i, j;
	for (i = 0; i < sizeof(t) / sizeof(t[0]); i++)
		if (strncmp(s, t[i].n, strlen(t[i].n)) == 0) {
			for (j = 0; j < 8 && t[i].r[j]; j += 2)
				re_range(r, pos, t[i].r[j], t[i].r[j + 1]);
			return (int)strlen(t[i].n);
		}
	return -1;
}
static struct frag re_atom(struct rp *r)
{
	struct frag f = { 0, 0, 1 };
	int pos;
	char c = *r->s;
	if (c == '(' && !r->p->basic) {
		r->s++;
		r->depth++;
		f = re_alt(r);
		r->depth--;
		if (*r->s != ')')
			r->err = 8;
		else
			r->s++;
		return f;
	}
	if (c == '[') {
		int first = 1;
		f = re_pos(r, &pos);
		r->s++;
		if (*r->s == '^') {
			r->p->neg[pos] = 1;
			r->s++;
		}
		while (!r->err && (first || *r->s != ']')) {
			u8 lo = (u8)*r->s;
			first = 0;
			if (!lo) {
				r->err = 7;
				return f;
			}
			if (lo == '[' && r->s[1] == ':') {
				int n = re_class(r, pos, r->s + 2);
				if (n < 0) {
					r->err = 4;
					return f;
				}
				r->s += 2 + n;
				continue;
			}
			r->s++;
			if (*r->s == '-' && r->s[1] != ']' && r->s[1]) {
				u8 hi = (u8)r->s[1];
				r->s += 2;
				if (hi < lo) {
					r->err = 11;
					return f;
				}
				re_range(r, pos, lo, hi);
			} else
				re_range(r, pos, lo, lo);
		}
		r->s++;
		return f;
	}
	if (!r->p->basic && (c == '*' || c == '+' || c == '?')) {
		r->err = 13; /* REG_BADRPT */
		return f;
	}
	f = re_pos(r, &pos);
	r->s++;
	if (c == '.')
		re_range(r, pos, 1, 255);
	else if (c == '\\') {
		if (!*r->s) {
			r->err = 5;
			return f;
		}
		re_range(r, pos, (u8)*r->s, (u8)*r->s);
		r->s++;
	} else
		re_range(r, pos, (u8)c, (u8)c);
	return f;
}
static void re_link(prog *p, u64 last, u64 first)
{
	int i;
	for (i = 1; i < p->n; i++)
		if (last >> i & 1)
			p->follow[i] |= first;
}
static struct frag re_seq(struct rp *r)
{
	struct frag f = { 0, 0, 1 };
	while (!r->err && *r->s && (r->p->basic || *r->s != '|') && !(*r->s == ')' && r->depth)) {
		struct frag a;
		if (*r->s == '^') {
			if (r->p->n != 1 || r->depth)
				abort(); /* unsupported by the model */
			r->p->bol = 1;
			r->s++;
			continue;
		}
		if (*r->s == '$') {
			if (r->s[1] || r->depth)
				abort();
			r->p->eol = 1;
			r->s++;
			continue;
		}
		a = re_atom(r);
		while (*r->s == '*' || (!r->p->basic && (*r->s == '+' || *r->s == '?'))) {
			if (*r->s != '?')
				re_link(r->p, a.last, a.first);
			if (*r->s != '+')
				a.nullable = 1;
			r->s++;
		}
		if (*r->s == '{' && !r->p->basic)
			abort();
		re_link(r->p, f.last, a.first);
		if (f.nullable)
			f.first |= a.first;
		f.last = a.nullable ? f.last | a.last : a.last;
		f.nullable &= a.nullable;
	}
	return f;
}
static struct frag re_alt(struct rp *r)
{
	struct frag f = re_seq(r);
	while (!r->err && *r->s == '|' && !r->p->basic) {
		struct frag b;
		if (r->p->bol | r->p->eol)
			abort();
		r->s++;
		b = re_seq(r);
		f.first |= b.first;
		f.last |= b.last;
		f.nullable |= b.nullable;
	}
	return f;
}
int regcomp(regex_t_ *re, const char *pat, int flags)
{
	struct rp r = { pat, NULL, 0, 0 };
	struct frag f;
	r.p = malloc(sizeof(prog));
	memset(r.p, 0, sizeof(prog));
	r.p->n = 1;
	r.p->basic = !(flags & 1); /* REG_EXTENDED */
	r.p->icase = (flags & 2) != 0;
	r.p->newline = (flags & 4) != 0;
	r.p->nosub = (flags & 8) != 0;
	f = re_alt(&r);
	if (!r.err && *r.s)
		r.err = 8;
	if (r.err) {
		free(r.p);
		return r.err;
	}
	r.p->first = f.first;
	r.p->last = f.last;
	r.p->nullable = f.nullable;
	re->p = r.p;
	return 0;
}
void regfree(regex_t_ *re)
{
	free(re->p);
	re->p = NULL;
}
static u64 re_in(const prog *p, int pos, u8 c)
{
	u64 m = 0;
	int i;
	for (i = 0; i < p->nr[pos]; i++)
		m |= (u8)(c - p->lo[pos][i]) <= (u8)(p->hi[pos][i] - p->lo[pos][i]);
	if (p->icase) {
		u8 o = c ^ ((u8)((c | 32) - 'a') < 26 ? 32 : 0);
		for (i = 0; i < p->nr[pos]; i++)
			m |= (u8)(o - p->lo[pos][i]) <= (u8)(p->hi[pos][i] - p->lo[pos][i]);
	}
	m ^= p->neg[pos];
	/* with REG_NEWLINE neither a period nor a list that excludes takes a newline */
	if (p->newline && (p->neg[pos] || p->hi[pos][0] - p->lo[pos][0] == 254))
		m &= c != '\n';
	return m;
}
int regexec(const regex_t_ *re, const char *s, size_t nm, regmatch_t_ *m, int flags)
{
	const prog *p = re->p;
	size_t n = strlen(s), st, i;
	int k;
	for (st = 0; st <= n; st++) {
		if (p->bol && !(st == 0 ? !(flags & 1) : p->newline && s[st - 1] == '\n'))
			continue;
		/* acc[i]: a match of length i from st */
		u64 set = p->first, ok, best = 0, found = 0;
		if (p->nullable && (!p->eol || (st == n && !(flags & 2)) || (p->newline && s[st] == '\n'))) {
			found = 1;
			best = 0;
		}
		for (i = st; i < n; i++) {
			u64 hit = 0, nset = 0;
			for (k = 1; k < p->n; k++) {
				u64 b = (set >> k & 1) & re_in(p, k, (u8)s[i]);
				hit |= b << k;
				nset |= p->follow[k] & (0 - b);
			}
			ok = (hit & p->last) != 0;
			if (p->eol && !((i + 1 == n && !(flags & 2)) || (p->newline && s[i + 1] == '\n')))
				ok = 0;
			best = ok ? i + 1 - st : best;
			found |= ok;
			set = nset;
		}
		if (found) {
			if (nm > 0 && !p->nosub) {
				best = sym_concrete(best);
				m[0].so = (int)st;
				m[0].eo = (int)(st + best);
				for (i = 1; i < nm; i++)
					m[i].so = m[i].eo = -1;
			}
			return 0;
		}
		if (p->bol && !p->newline)
			break;
	}
	return 1;
}
