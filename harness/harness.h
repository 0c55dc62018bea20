/* Common part of all harnesses: allocation accounting, fault injection, symbolic strings. */
#ifndef HARNESS_H
#define HARNESS_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <errno.h>
#include <ecoli.h>
#include <sym.h>

/* every ecoli allocation goes through these handlers (public ec_malloc_register API) */
static long h_live;              /* live allocations */
static unsigned long h_nalloc;   /* allocation requests seen */
static long h_fail_at = -1;      /* index (from h_arm) of the request that fails */
static long h_count;
static int h_failed;             /* the failure was delivered */

static inline int h_inject(void)
{
	if (h_fail_at < 0)
		return 0;
	if (h_count++ == h_fail_at) {
		h_failed = 1;
		return 1;
	}
	return 0;
}
static inline void h_arm(long at)
{
	h_fail_at = at;
	h_count = 0;
	h_failed = 0;
}
static inline void h_disarm(void) { h_fail_at = -1; }

static void *h_malloc(size_t n, const char *file, unsigned int line)
{
	void *p;
	(void)file; (void)line;
	h_nalloc++;
	if (h_inject()) {
		errno = ENOMEM;
		return NULL;
	}
	p = malloc(n);
	if (p)
		h_live++;
	return p;
}
static void h_free(void *p, const char *file, unsigned int line)
{
	(void)file; (void)line;
	if (p != NULL)
		h_live--;
	free(p);
}
static void *h_realloc(void *p, size_t n, const char *file, unsigned int line)
{
	void *q;
	(void)file; (void)line;
	h_nalloc++;
	if (h_inject()) {
		errno = ENOMEM;
		return NULL;
	}
	q = realloc(p, n);
	if (p == NULL && q != NULL)
		h_live++;
	return q;
}
/* initialise the library; leaks are judged from here */
static long h_base;
static int h_ready;
static inline void h_init(void)
{
	if (h_ready)
		return;
	h_ready = 1;
	int r = ec_malloc_register(h_malloc, h_free, h_realloc);
	sym_assert(r == 0, "malloc handlers registered");
	r = ec_init();
	sym_assert(r == 0, "ec_init succeeds");
	h_base = h_live;
}
#ifndef H_NOBOOT
/* run before the entry, so that the initialisation is shared by all the paths */
void h_boot(void);
void h_boot(void) { h_init(); }
#endif
static inline void h_end(void)
{
	sym_observe("live", (uint64_t)(h_live - h_base));
	sym_assert(h_live >= h_base, "no allocation released twice or by the wrong owner");
	sym_assert(h_live <= h_base, "no allocation leaked");
	sym_cover("end");
}
/* symbolic NUL-terminated string: length chosen in 0..max (one path per length), bytes non-zero */
static inline size_t h_str(char *buf, size_t max, const char *name)
{
	size_t i, n = sym_choice((unsigned)max + 1, name);
	sym_bytes(buf, n, name);
	for (i = 0; i < n; i++)
		sym_assume(buf[i] != 0);
	buf[n] = 0;
	return n;
}
/* same with a fixed length */
static inline void h_strn(char *buf, size_t n, const char *name)
{
	size_t i;
	sym_bytes(buf, n, name);
	for (i = 0; i < n; i++)
		sym_assume(buf[i] != 0);
	buf[n] = 0;
}
/* restrict a byte to a small alphabet */
static inline void h_in(char c, const char *set)
{
	int ok = 0;
	for (; *set; set++)
		ok |= c == *set;
	sym_assume(ok);
}
#endif
