/* P21: initialisation order, log, allocation wrappers */
#define H_NOBOOT
#include "harness.h"
#include <ecoli_init.h>
#include <ecoli_log.h>
#include <ecoli_malloc.h>
#include <stdarg.h>
#ifndef N
#define N 2
#endif
#ifndef NI
#define NI 2
#endif
#define B(x) sym_concrete(!!(x))

/* ---- initialisers ---- */
static int calls[16], ncalls, ret_of[3];
static int call(int i)
{
	sym_assert(ncalls < 16, "bounded calls");
	calls[ncalls++] = i;
	return i < 100 ? ret_of[i] : 0;
}
static int i0(void) { return call(0); }
static int i1(void) { return call(1); }
static int i2(void) { return call(2); }
static void e0(void) { call(100); }
static void e1(void) { call(101); }
static void e2(void) { call(102); }
static ec_init_t *is[] = { i0, i1, i2 };
static ec_exit_t *es[] = { e0, e1, e2 };
static struct ec_init in[3];
void h_init_order(void)
{
	unsigned i, j, k, what;
	int r, expect = 0, order[3], n = 0, stop;
	long live;

	sym_assert(ec_malloc_register(h_malloc, h_free, h_realloc) == 0, "malloc handlers registered");
	for (i = 0; i < NI; i++) {
		in[i].priority = (uint32_t)sym_u64("prio");
		ret_of[i] = (int32_t)sym_u64("ret");
		what = sym_choice(3, "what");
		in[i].init = what == 2 ? NULL : is[i];
		in[i].exit = what == 1 ? NULL : es[i];
		ec_init_register(&in[i]);
		if (i == 1)
			sym_part();
	}
	live = h_live;
	r = ec_init();
	/* the initialisers in the order they have to run, whatever the order of equal priorities */
	for (i = 0; i < NI; i++)
		if (in[i].init && B(ret_of[i] < 0))
			expect = -1;
	sym_assert(r == expect, "initialisation fails exactly when an initialiser fails");
	stop = -1;
	for (k = 0; k < (unsigned)ncalls; k++) {
		i = calls[k];
		sym_assert(i < NI, "no exit function called");
		sym_assert(stop < 0, "nothing runs after the first failure");
		for (j = 0; j < k; j++) {
			sym_assert(calls[j] != (int)i, "an initialiser runs once");
			sym_assert(in[calls[j]].priority <= in[i].priority, "initialisers run by increasing priority");
		}
		if (B(ret_of[i] < 0))
			stop = i;
		order[n++] = i;
	}
	for (i = 0; i < NI; i++) {
		for (k = 0; k < (unsigned)n && order[k] != (int)i; k++)
			;
		if (k < (unsigned)n || !in[i].init)
			continue;
		sym_assert(stop >= 0, "every initialiser runs when none fails");
		sym_assert(in[i].priority >= in[stop].priority, "only later initialisers are skipped");
	}
	/* exit in reverse order */
	ncalls = 0;
	ec_exit();
	for (i = k = 0; i < NI; i++)
		k += in[i].exit != NULL;
	sym_assert((unsigned)ncalls == k, "every exit function runs once");
	for (k = 0; k < (unsigned)ncalls; k++)
		for (j = 0; j < k; j++) {
			sym_assert(calls[k] >= 100 && calls[j] >= 100 && calls[j] != calls[k], "every exit function runs once");
			sym_assert(in[calls[j] - 100].priority >= in[calls[k] - 100].priority, "exit functions run by decreasing priority");
		}
	/* reverse also among equal priorities */
	for (k = 0; k < (unsigned)n; k++)
		for (j = 0; j < k; j++) {
			int x = -1, y = -1;
			for (i = 0; i < (unsigned)ncalls; i++) {
				if (calls[i] == 100 + order[j])
					x = i;
				if (calls[i] == 100 + order[k])
					y = i;
			}
			if (x >= 0 && y >= 0)
				sym_assert(y < x, "exit functions run in the reverse order");
		}
	sym_assert(h_live == live, "everything allocated by the initialisation is released");
	ec_exit();
	sym_assert(h_live == live, "a second exit releases nothing twice");
	sym_cover(r ? "failed" : "ok");
	sym_cover("end");
}
/* initialise, exit, initialise again and use */
void h_again(void)
{
	struct ec_node *n;
	struct ec_pnode *p;
	long live;
	unsigned i, what = sym_choice(3, "what");

	sym_assert(ec_malloc_register(h_malloc, h_free, NULL) < 0 && errno == EINVAL, "a missing handler is refused");
	sym_assert(ec_malloc_register(h_malloc, NULL, h_realloc) < 0, "a missing handler is refused");
	sym_assert(ec_malloc_register(NULL, h_free, h_realloc) < 0, "a missing handler is refused");
	sym_assert(ec_malloc_register(h_malloc, h_free, h_realloc) == 0, "malloc handlers registered");
	live = h_live;
	for (i = 0; i < 2; i++) {
		sym_assert(ec_init() == 0, "initialised");
		sym_assert(ec_malloc_register(h_malloc, h_free, h_realloc) < 0 && errno == EBUSY, "handlers cannot change once initialised");
		switch (what) {
		case 0: n = EC_NODE_CMD("c", "a|b", ec_node("any", "z")); break;
		case 1: n = ec_node_cond("c", "bool(root())", ec_node_str("", "a")); break;
		default: n = ec_node_re("c", "a+"); break;
		}
		sym_assert(n != NULL, "node created");
		p = ec_parse(n, "a");
		sym_assert(p != NULL && ec_pnode_matches(p), "node works");
		ec_pnode_free(p);
		ec_node_free(n);
		ec_exit();
		sym_assert(h_live == live, "everything is released");
	}
	sym_cover("end");
}

/* ---- log ---- */
static int log_n, log_type, log_level;
static char log_txt[16];
static void *log_op;
static int log_cb(int type, enum ec_log_level level, void *opaque, const char *str)
{
	log_n++;
	log_type = type;
	log_level = level;
	log_op = opaque;
	strncpy(log_txt, str, sizeof(log_txt) - 1);
	return 42;
}
static int vlog(int type, enum ec_log_level lvl, const char *fmt, ...)
{
	va_list ap;
	int r;
	va_start(ap, fmt);
	r = ec_vlog(type, lvl, fmt, ap);
	va_end(ap);
	return r;
}
static char a[N + 1], b[N + 1];
void h_logtype(void)
{
	int ia, ib, ic, eq, t;
	unsigned i, n;

	sym_assert(ec_malloc_register(h_malloc, h_free, h_realloc) == 0, "malloc handlers registered");
	h_str(a, N, "a");
	h_str(b, N, "b");
	ia = ec_log_type_register(a);
	sym_assert(ia >= 0, "type registered");
	sym_assert(!strcmp(ec_log_name(ia), a), "name of the type");
	ib = ec_log_type_register(b);
	sym_assert(ib >= 0, "type registered");
	sym_assert(!strcmp(ec_log_name(ib), b), "name of the type");
	sym_assert(!strcmp(ec_log_name(ia), a), "registering another type keeps the name");
	eq = !strcmp(a, b);
	sym_assert((ia == ib) == eq, "one type per name");
	ic = ec_log_type_register(a);
	sym_assert(ic == ia, "registering a name again returns the same type");
	sym_assert(!strcmp(ec_log_name(ec_log_type_register("node_str")), "node_str"), "existing types are found");
	t = (int32_t)sym_u64("t");
	n = (ia > ib ? ia : ib) + 1;
	if (B(t < 0 || t >= (int)n)) {
		sym_assert(!strcmp(ec_log_name(t), "unknown"), "unknown type");
		sym_cover("unknown");
	} else {
		for (i = 0; i < n; i++)
			if (B(t == (int)i))
				sym_assert(ec_log_name(i) != NULL && strcmp(ec_log_name(i), "unknown") != 0, "known type");
		sym_cover("known");
	}
	sym_cover("end");
}
/* long names that differ in one byte; many types */
#ifndef MT
#define MT 140
#endif
void h_logmany(void)
{
	static const unsigned lens[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 130 };
	static char p[140], q[140], nm[8];
	static int id[MT];
	unsigned n = lens[sym_choice(10, "len")], at, i, j;
	int ip, iq;

	sym_assert(ec_malloc_register(h_malloc, h_free, h_realloc) == 0, "malloc handlers registered");
	for (i = 0; i < MT; i++) {
		snprintf(nm, sizeof(nm), "t%u", i);
		id[i] = ec_log_type_register(nm);
		sym_assert(id[i] >= 0 && (i == 0 || id[i] == id[i - 1] + 1 || id[i] != id[i - 1]), "type registered");
	}
	for (i = 0; i < MT; i++) {
		snprintf(nm, sizeof(nm), "t%u", i);
		sym_assert(!strcmp(ec_log_name(id[i]), nm), "every type keeps its name");
		for (j = 0; j < i; j++)
			sym_assert(id[i] != id[j], "one type per name");
		if (i % 7 == 0)
			sym_assert(ec_log_type_register(nm) == id[i], "registering a name again returns the same type");
	}
	for (i = 0; i < n; i++)
		p[i] = q[i] = 'a' + i % 7;
	at = sym_choice(2, "where") ? n - 1 : n / 2;
	q[at] = sym_u8("byte");
	sym_assume(q[at] != 0);
	ip = ec_log_type_register(p);
	iq = ec_log_type_register(q);
	sym_assert(ip >= 0 && iq >= 0 && (ip == iq) == (p[at] == q[at]), "one type per name");
	sym_assert(!strcmp(ec_log_name(ip), p) && !strcmp(ec_log_name(iq), q), "name of the type");
	sym_cover("end");
}
static char mark;
void h_log(void)
{
	uint32_t gl = (uint32_t)sym_u64("gl"), lvl = (uint32_t)sym_u64("lvl"), cur;
	char *buf = NULL, want[64];
	size_t len = 0;
	FILE *f, *save = stderr;
	unsigned how, i;
	int r, type, v = (int8_t)sym_u64("v");

	h_init();
	h_str(a, N, "a");
	type = ec_log_type_register("mytype");
	how = sym_choice(4, "how");
	cur = ec_log_level_get();
	r = ec_log_level_set((enum ec_log_level)gl);
	sym_assert((r == 0) == (gl <= EC_LOG_DEBUG), "exactly the defined levels can be set");
	if (B(r == 0))
		cur = gl;
	sym_assert((uint32_t)ec_log_level_get() == cur, "level read back");
	if (how < 2) {
		sym_assert(ec_log_fct_register(log_cb, &mark) == 0, "handler registered");
		r = how ? vlog(type, lvl, "<%s>%d", a, v) : ec_log(type, lvl, "<%s>%d", a, v);
		sym_assert(r == 42, "result of the handler");
		sym_assert(log_n == 1 && log_type == type && (uint32_t)log_level == lvl && log_op == &mark, "the handler gets every message once");
		snprintf(want, sizeof(want), "<%s>%d", a, v);
		sym_assert(!strcmp(log_txt, want), "the handler gets the formatted text");
		sym_assert(ec_log_fct_register(NULL, NULL) == 0, "default handler restored");
		r = log_n;
		ec_log(type, 255, "%s", a);
		sym_assert(log_n == r, "the previous handler is not called any more");
		sym_cover("handler");
	} else {
		/* default handler: printed exactly when the level is within the limit */
		if (how == 3) {
			sym_assert(ec_log_fct_register(log_cb, &mark) == 0, "handler registered");
			sym_assert(ec_log_fct_register(NULL, &mark) == 0, "default handler restored");
		}
		f = open_memstream(&buf, &len);
		sym_assert(f != NULL, "stream");
		stderr = f;
		r = ec_log(type, lvl, "%s", a);
		stderr = save;
		fclose(f);
		sym_assert(r == 0 && log_n == 0, "logged");
		if (B(lvl <= cur)) {
			snprintf(want, sizeof(want), "mytype");
			for (i = 0; i + 6 <= len && memcmp(buf + i, want, 6); i++)
				;
			sym_assert(i + 6 <= len, "the type is printed");
			sym_assert(len >= strlen(a) && !strcmp(buf + len - strlen(a), a), "the message is printed");
			sym_cover("printed");
		} else {
			sym_assert(len == 0, "nothing printed beyond the level");
			sym_cover("hidden");
		}
		free(buf);
	}
	sym_cover("end");
}

/* ---- allocation ---- */
static struct { int n; char kind; size_t size; void *ptr; } req;
static char pool[64], *pool_end = pool + sizeof(pool);
static int deny;
static void *t_malloc(size_t n, const char *file, unsigned int line)
{
	req.n++;
	req.kind = 'm';
	req.size = n;
	sym_assert(file != NULL && line != 0, "call site given");
	if (deny) {
		errno = ENOMEM;
		return NULL;
	}
	memset(pool, 0x5a, sizeof(pool));
	return pool;
}
static void t_free(void *p, const char *file, unsigned int line)
{
	sym_assert(file != NULL && line != 0, "call site given");
	req.n++;
	req.kind = 'f';
	req.ptr = p;
}
static void *t_realloc(void *p, size_t n, const char *file, unsigned int line)
{
	sym_assert(file != NULL && line != 0, "call site given");
	req.n++;
	req.kind = 'r';
	req.ptr = p;
	req.size = n;
	return deny ? NULL : pool;
}
static void expect(char kind, size_t size, void *ptr)
{
	sym_assert(req.n == 1 && req.kind == kind, "exactly one request to the handler");
	if (kind != 'f')
		sym_assert(req.size == size, "the handler gets the size");
	if (kind != 'm')
		sym_assert(req.ptr == ptr, "the handler gets the memory");
	req.n = 0;
}
void h_alloc(void)
{
	size_t n = sym_u64("n"), l;
	char *p;
	unsigned i;

	deny = sym_choice(2, "deny");
	h_str(a, N, "a");
	sym_assert(ec_malloc_register(t_malloc, t_free, t_realloc) == 0, "malloc handlers registered");
	p = ec_malloc(n);
	sym_assert(p == (deny ? NULL : pool), "memory of the handler");
	expect('m', n, NULL);
	p = ec_malloc_func(n);
	sym_assert(p == (deny ? NULL : pool), "memory of the handler");
	expect('m', n, NULL);
	p = ec_realloc(&mark, n);
	sym_assert(p == (deny ? NULL : pool), "memory of the handler");
	expect('r', n, &mark);
	p = ec_realloc_func(&mark, n);
	sym_assert(p == (deny ? NULL : pool), "memory of the handler");
	expect('r', n, &mark);
	ec_free(&mark);
	expect('f', 0, &mark);
	ec_free_func(&mark);
	expect('f', 0, &mark);
	p = ec_strdup(a);
	expect('m', strlen(a) + 1, NULL);
	sym_assert(deny ? p == NULL : p == pool && !strcmp(p, a), "copy of the string");
	l = strlen(a);
	if (B(n < l))
		for (l = 0; !B(l == n); l++)
			;
	p = ec_strndup(a, n);
	expect('m', l + 1, NULL);
	sym_assert(deny ? p == NULL : p == pool && strlen(p) == l && !memcmp(p, a, l), "copy of the start of the string");
	if (!deny)
		for (i = l + 1; i < sizeof(pool); i++)
			sym_assert(pool[i] == 0x5a, "nothing written past the copy");
	/* bytes that are not followed by a terminator */
	l = strlen(a);
	p = malloc(l ? l : 1);
	memcpy(p, a, l);
	{
		char *q = ec_strndup(p, l);
		expect('m', l + 1, NULL);
		sym_assert(deny ? q == NULL : q == pool && strlen(q) == l && !memcmp(q, a, l), "copy of bytes without a terminator");
	}
	free(p);
	sym_cover("end");
}
/* larger areas are zeroed too */
static void *p_malloc(size_t n, const char *file, unsigned int line)
{
	void *p = h_malloc(n, file, line);
	return p ? memset(p, 0x5a, n) : NULL;
}
void h_bigcalloc(void)
{
	static const size_t vals[] = { 255, 256, 257, 4095, 4096, 4097, 8193, 65535, 65536, 65537, 70001 };
	size_t n = vals[sym_choice(sizeof(vals) / sizeof(vals[0]), "size")], i;
	unsigned how = sym_choice(2, "how");
	unsigned char *p;

	sym_assert(ec_malloc_register(p_malloc, h_free, h_realloc) == 0, "malloc handlers registered");
	p = how ? ec_calloc(1, n) : ec_calloc(n, 1);
	sym_assert(p != NULL, "allocated");
	for (i = 0; i < n; i += i < 300 || i + 300 > n || i % 4096 > 4090 || i % 4096 < 5 ? 1 : 5)
		sym_assert(p[i] == 0, "all the memory asked for is zeroed");
	ec_free(p);
	sym_assert(h_live == 0, "released");
	sym_cover("end");
}
#ifndef FEW
#define FEW 8
#endif
void h_calloc(void)
{
	static const size_t vals[] = { 0, 1, 2, 8, 16, 1ul << 32, 1ul << 63, ~0ul, 3, 5, 24, 255, (1ul << 32) - 1, (1ul << 32) + 1 };
	unsigned which = sym_choice(FEW, "which"), sw = sym_choice(2, "swap"), i;
	size_t n = vals[which], s = sym_u64("size"), total;
	char *p;
	int ovf;

	sym_part();
	if (which > 8 && sw)
		sym_stop();
	sym_assert(ec_malloc_register(t_malloc, t_free, t_realloc) == 0, "malloc handlers registered");
	/* larger requests are refused by the handler */
	ovf = n != 0 && s > ~0ul / (n ? n : 1);
	total = n * s;
	deny = !B(ovf) && !B(total <= sizeof(pool));
	if (!B(ovf) && !deny)
		for (i = 0; i < sizeof(pool) && !B(total == i); i++)
			;
	errno = 0;
	p = sw ? ec_calloc(s, n) : ec_calloc(n, s);
	if (B(ovf)) {
		sym_assert(p == NULL && errno == ENOMEM && req.n == 0, "a size that overflows is refused");
		sym_cover("overflow");
	} else {
		expect('m', total, NULL);
		sym_assert(p == (deny ? NULL : pool), "memory of the handler");
		if (!deny) {
			for (i = 0; i < sizeof(pool); i++)
				sym_assert(pool[i] == (i < total ? 0 : 0x5a), "exactly the memory asked for is zeroed");
			sym_cover("zeroed");
		}
	}
	(void)pool_end;
	sym_cover("end");
}
