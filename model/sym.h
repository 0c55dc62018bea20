/* Interface between harnesses and the engine (or the native replay runtime). */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>
uint8_t sym_u8(const char *name);
uint32_t sym_u32(const char *name);
uint64_t sym_u64(const char *name);
void sym_bytes(void *p, size_t n, const char *name);
unsigned int sym_choice(unsigned int n, const char *name); /* 0..n-1, one path each */
unsigned int sym_shard(unsigned int n);
void sym_part(void); /* restrict this shard to its share of the choices made so far */
void sym_assume(int cond);
void __sym_assert(int cond, const char *msg);
#define sym_assert(c, msg) __sym_assert(!!(c), msg)
void sym_observe(const char *label, uint64_t v);
void sym_cover(const char *label);
void sym_limit(uint64_t n); /* budget: instructions here, ignored natively */
void sym_stop(void); /* end this path silently */
uint64_t sym_concrete(uint64_t v); /* split paths until v is concrete */
#endif
