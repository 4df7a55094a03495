/* Force-included into the "traced" scratch build, which is compiled with -fsanitize=kernel-address and outlined checks:
 * the compiler then calls a function for every load and store of the library.  Those functions, defined here, record the
 * extents of what is accessed in registered regions, in blocks the library allocates, and in its own global variables. */
#ifndef YENC_MEMTRACE_H
#define YENC_MEMTRACE_H
#include <stddef.h>
#include <stdint.h>
#define YT_MAX 48
#define YT_SLACK 4096
struct yt_region { char* base; size_t size; int64_t rlo, rhi, wlo, whi; int64_t asked; };	/* extents are relative to base; rlo>=rhi: none */
struct yt_all { int active; int n; int allocs; int pad; uint64_t accesses; struct yt_region r[YT_MAX]; };
#ifdef __cplusplus
extern "C" {
#endif
#define YT_FN __attribute__((weak, noinline, visibility("default"), no_sanitize("kernel-address")))
YT_FN struct yt_all yt_state_;
YT_FN struct yt_all* yt_state(void) { return &yt_state_; }
/* provided by the test helper addon when it is loaded globally: sees the accesses of the calling thread */
void yt_thread_hook(char*, size_t, int) __attribute__((weak));
void yt_thread_alloc(char*, size_t) __attribute__((weak));
YT_FN void yt_access(char* a, size_t n, int w) {
	if (yt_thread_hook) yt_thread_hook(a, n, w);
	struct yt_all* s = &yt_state_;
	if (!s->active || !n) return;
	s->accesses++;
	for (int i = 0; i < s->n; i++) {
		struct yt_region* r = &s->r[i];
		if ((size_t)(a + n - 1 - r->base) < r->size || (size_t)(a - r->base) < r->size) {
			int64_t lo = a - r->base, hi = lo + (int64_t)n;
			if (w) { if (lo < r->wlo) r->wlo = lo; if (hi > r->whi) r->whi = hi; }
			else { if (lo < r->rlo) r->rlo = lo; if (hi > r->rhi) r->rhi = hi; }
		}
	}
}
#define YT_L(n) YT_FN void __asan_load##n##_noabort(void* a) { yt_access((char*)a, n, 0); } YT_FN void __asan_store##n##_noabort(void* a) { yt_access((char*)a, n, 1); }
YT_L(1) YT_L(2) YT_L(4) YT_L(8) YT_L(16)
YT_FN void __asan_loadN_noabort(void* a, long n) { yt_access((char*)a, (size_t)n, 0); }
YT_FN void __asan_storeN_noabort(void* a, long n) { yt_access((char*)a, (size_t)n, 1); }
YT_FN void __asan_handle_no_return(void) {}
/* linker --wrap */
void* __real_malloc(size_t); void* __real_realloc(void*, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
YT_FN void yt_alloc(char* p, size_t n) {
	struct yt_all* s = &yt_state_;
	if (!s->active || !p || s->n >= YT_MAX) return;
	struct yt_region* r = &s->r[s->n];
	r->base = p; r->size = n + YT_SLACK; r->asked = (int64_t)n; r->rlo = r->wlo = INT64_MAX; r->rhi = r->whi = INT64_MIN;
	s->n++; s->allocs++;
}
YT_FN void* __wrap_malloc(size_t n) { if (!yt_state_.active) { char* q = (char*)__real_malloc(n); if (yt_thread_alloc) yt_thread_alloc(q, n); return q; } char* p = (char*)__real_malloc(n + YT_SLACK); yt_alloc(p, n); return p; }
YT_FN void* __wrap_realloc(void* o, size_t n) { return __real_realloc(o, n + YT_SLACK); }
YT_FN void* __wrap_memcpy(void* d, const void* s, size_t n) { yt_access((char*)s, n, 0); yt_access((char*)d, n, 1); return __real_memcpy(d, s, n); }
YT_FN void* __wrap_memmove(void* d, const void* s, size_t n) { yt_access((char*)s, n, 0); yt_access((char*)d, n, 1); return __real_memmove(d, s, n); }
YT_FN void* __wrap_memset(void* d, int c, size_t n) { yt_access((char*)d, n, 1); return __real_memset(d, c, n); }
#ifdef __cplusplus
}
#endif
#endif
