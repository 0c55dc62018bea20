/* Native replay runtime: feeds recorded values to a harness built from the real sources. */
#define _GNU_SOURCE
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static FILE *in;
static unsigned int shard;
static char *next_line(void)
{
	static char buf[1024];
	for (;;) {
		if (!fgets(buf, sizeof(buf), in))
			return NULL;
		if (!strncmp(buf, "shard ", 6)) {
			shard = atoi(buf + 6);
			continue;
		}
		if (!strncmp(buf, "sym ", 4))
			return buf;
	}
}
static uint64_t next(const char *name)
{
	char *l = next_line(), nm[512];
	int w;
	unsigned long long v;
	if (!l || sscanf(l, "sym %500s %d %llu", nm, &w, &v) != 3) {
		/* counterexamples end where the path ended: values past it are 0 */
		return 0;
	}
	if (strncmp(nm, name, strlen(name))) {
		fprintf(stderr, "REPLAY-MISMATCH wanted %s got %s\n", name, nm);
		_exit(78);
	}
	return v;
}
uint8_t sym_u8(const char *n) { return (uint8_t)next(n); }
uint32_t sym_u32(const char *n) { return (uint32_t)next(n); }
uint64_t sym_u64(const char *n) { return next(n); }
void sym_bytes(void *p, size_t n, const char *nm)
{
	size_t i;
	for (i = 0; i < n; i++)
		((uint8_t *)p)[i] = (uint8_t)next(nm);
}
unsigned int sym_choice(unsigned int n, const char *nm)
{
	unsigned int v = (unsigned int)next(nm);
	return v < n ? v : 0;
}
unsigned int sym_shard(unsigned int n) { (void)n; return shard; }
void sym_part(void) {}
void sym_assume(int c)
{
	if (!c) {
		fprintf(stderr, "REPLAY-ASSUME-FALSE\n");
		_exit(77);
	}
}
void __sym_assert(int c, const char *msg)
{
	if (!c) {
		fflush(stdout);
		printf("ASSERT-FAIL %s\n", msg);
		fflush(stdout);
		_exit(99);
	}
}
void sym_observe(const char *l, uint64_t v) { printf("OBS %s %llu\n", l, (unsigned long long)v); }
void sym_cover(const char *l) { (void)l; }
void sym_limit(uint64_t n) { (void)n; }
void sym_stop(void) { fflush(stdout); _exit(0); }
uint64_t sym_concrete(uint64_t v) { return v; }
extern void SYM_ENTRY(void);
extern void h_boot(void) __attribute__((weak));
int main(int argc, char **argv)
{
	if (argc < 2 || !(in = fopen(argv[1], "r")))
		return 2;
	char b[64];
	/* read shard early */
	while (fgets(b, sizeof(b), in))
		if (!strncmp(b, "shard ", 6))
			shard = atoi(b + 6);
	rewind(in);
	if (h_boot)
		h_boot();
	SYM_ENTRY();
	printf("END\n");
	fflush(stdout);
	return 0;
}
