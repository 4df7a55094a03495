// Loaded globally (dlopen RTLD_GLOBAL) before a traced build of the addon, whose recorder (memtrace.h) calls it.
#define _GNU_SOURCE 1
#include <dlfcn.h>
#include <unistd.h>
#include <stdint.h>
#include <stddef.h>
// accesses of one thread to memory that other threads can reach, in traced builds; the thread can be held before a chosen one
#include <pthread.h>
struct span { char* p; size_t n; };
static __thread volatile int32_t* ctl; static __thread char *stlo, *sthi; static __thread span own[64]; static __thread int nown;
enum { MODE, TARGET, LOADS, STORES, PARKED, RELEASE, INDEX, EXPIRED, GLOBALS, POS = 16, NPOS = 200 };
extern "C" __attribute__((visibility("default"))) void yt_thread_hook(char* a, size_t n, int w) {
	volatile int32_t* c = ctl;
	if (!c || !c[MODE] || !n || (a >= stlo && a < sthi)) return;
	for (int k = 0; k < nown; k++) if (a >= own[k].p - 64 && a < own[k].p + own[k].n + 4160) return;
	int i = ++c[INDEX];
	if (!w) c[LOADS]++; else { if (c[STORES] < NPOS) c[POS + c[STORES]] = i; c[STORES]++; Dl_info d; if (c[MODE] == 1 && c[STORES] < 2000 && dladdr(a, &d)) c[GLOBALS]++; }
	if (i == c[TARGET]) {
		__atomic_store_n(&c[PARKED], 1, __ATOMIC_SEQ_CST);
		for (int k = 0; !__atomic_load_n(&c[RELEASE], __ATOMIC_SEQ_CST); k++) { usleep(200); if (k > 300000) { c[EXPIRED] = 1; break; } }
		__atomic_store_n(&c[PARKED], 2, __ATOMIC_SEQ_CST);
	}
}
extern "C" __attribute__((visibility("default"))) void yt_thread_alloc(char* p, size_t n) { if (ctl && ctl[MODE] == 1 && p && nown < 64) { own[nown].p = p; own[nown++].n = n; } }
extern "C" __attribute__((visibility("default"))) void yh_control(int32_t* c) {
	pthread_attr_t at; void* lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
	stlo = (char*)lo; sthi = stlo + sz; ctl = c;
}
extern "C" __attribute__((visibility("default"))) void yh_watch(int mode, int n, char** p, size_t* sz) {
	nown = 0; for (int k = 0; k < n && k < 60; k++) { own[nown].p = p[k]; own[nown++].n = sz[k]; }
	if (ctl && mode) ctl[LOADS] = ctl[STORES] = ctl[INDEX] = 0;
	if (ctl) ctl[MODE] = mode;
}
