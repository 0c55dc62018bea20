/* the hash of a key is chosen by the harness: any placement, any collision */
#ifndef ENV_HASH_H
#define ENV_HASH_H
#include <stdint.h>
#define ec_murmurhash3 h_hash
#ifndef H_UNIT /* the definition in the library gives way to the one in the harness */
uint32_t h_hash(const void *key, int len, uint32_t seed) __attribute__((weak));
#endif
#endif
