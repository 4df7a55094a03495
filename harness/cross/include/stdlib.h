#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void* malloc(size_t); void free(void*); void* realloc(void*, size_t); void* calloc(size_t, size_t);
int posix_memalign(void**, size_t, size_t); void* aligned_alloc(size_t, size_t); void abort(void);
static inline long long llabs(long long x) { return x < 0 ? -x : x; }
static inline int abs(int x) { return x < 0 ? -x : x; }
#ifdef __cplusplus
}
#endif
