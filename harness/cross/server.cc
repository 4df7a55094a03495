// Runs the addon's own C++ sources for another architecture, without an operating system's libraries, V8 or Node:
// a process under an instruction-set emulator that takes calls on its standard input and answers on its standard output.
#include <v8.h>
#include <stdlib.h>
#include <string.h>
using namespace v8;

// ---------------------------------------------------------------- system calls
#if defined(__aarch64__)
static long sys(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0) { register long x8 asm("x8") = n, x0 asm("x0") = a, x1 asm("x1") = b, x2 asm("x2") = c, x3 asm("x3") = d, x4 asm("x4") = e, x5 asm("x5") = f; asm volatile("svc 0" : "+r"(x0) : "r"(x8), "r"(x1), "r"(x2), "r"(x3), "r"(x4), "r"(x5) : "memory"); return x0; }
enum { SYS_read = 63, SYS_write = 64, SYS_exit = 93, SYS_mmap = 222, SYS_mprotect = 226 };
asm(".globl _start\n_start: mov x29, #0\n mov x30, #0\n bl cross_main\n");
#elif defined(__riscv)
static long sys(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0) { register long a7 asm("a7") = n, a0 asm("a0") = a, a1 asm("a1") = b, a2 asm("a2") = c, a3 asm("a3") = d, a4 asm("a4") = e, a5 asm("a5") = f; asm volatile("ecall" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2), "r"(a3), "r"(a4), "r"(a5) : "memory"); return a0; }
enum { SYS_read = 63, SYS_write = 64, SYS_exit = 93, SYS_mmap = 222, SYS_mprotect = 226 };
asm(".globl _start\n_start:\n.option push\n.option norelax\n la gp, __global_pointer$\n.option pop\n call cross_main\n");
#elif defined(__arm__)
static long sys(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0) { register long r7 asm("r7") = n, r0 asm("r0") = a, r1 asm("r1") = b, r2 asm("r2") = c, r3 asm("r3") = d, r4 asm("r4") = e, r5 asm("r5") = f; asm volatile("svc 0" : "+r"(r0) : "r"(r7), "r"(r1), "r"(r2), "r"(r3), "r"(r4), "r"(r5) : "memory"); return r0; }
enum { SYS_read = 3, SYS_write = 4, SYS_exit = 1, SYS_mmap = 192, SYS_mprotect = 125 };
asm(".arm\n.globl _start\n_start: mov fp, #0\n mov lr, #0\n bic sp, sp, #15\n bl cross_main\n");
#elif defined(__i386__)
static long sys(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0) { long r; long in[7] = { n, a, b, c, d, e, f };
	asm volatile("pushl %%ebp\n pushl %%ebx\n movl 4(%1), %%ebx\n movl 8(%1), %%ecx\n movl 12(%1), %%edx\n movl 16(%1), %%esi\n movl 20(%1), %%edi\n movl 24(%1), %%ebp\n movl (%1), %%eax\n int $0x80\n popl %%ebx\n popl %%ebp" : "=a"(r) : "a"(in) : "ecx", "edx", "esi", "edi", "memory", "cc"); return r; }
enum { SYS_read = 3, SYS_write = 4, SYS_exit = 1, SYS_mmap = 192, SYS_mprotect = 125 };
asm(".globl _start\n_start: xorl %ebp, %ebp\n andl $-16, %esp\n call cross_main\n");
#elif defined(__s390x__)
static long sys(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0) { register long r1 asm("1") = n, r2 asm("2") = a, r3 asm("3") = b, r4 asm("4") = c, r5 asm("5") = d, r6 asm("6") = e; asm volatile("svc 0" : "+d"(r2) : "d"(r1), "d"(r3), "d"(r4), "d"(r5), "d"(r6) : "memory"); return r2; }
enum { SYS_read = 3, SYS_write = 4, SYS_exit = 1, SYS_mmap = 90, SYS_mprotect = 125 };
asm(".globl _start\n_start: aghi 15,-160\n brasl 14,cross_main\n");
#elif defined(__powerpc__)
static long sys(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0) { register long r0 asm("r0") = n, r3 asm("r3") = a, r4 asm("r4") = b, r5 asm("r5") = c, r6 asm("r6") = d, r7 asm("r7") = e, r8 asm("r8") = f; asm volatile("sc\n bns+ 1f\n neg %0, %0\n1:" : "+r"(r3), "+r"(r0), "+r"(r4), "+r"(r5), "+r"(r6), "+r"(r7), "+r"(r8) : : "memory", "cr0", "r9", "r10", "r11", "r12", "ctr"); return r3; }
enum { SYS_read = 3, SYS_write = 4, SYS_exit = 1, SYS_mmap = 192, SYS_mprotect = 125 };
asm(".globl _start\n_start: rlwinm 1,1,0,0,27\n li 0,0\n stwu 1,-64(1)\n bl cross_main\n");
#endif
static void quit(int c) { for (;;) sys(SYS_exit, c, 0, 0); }
static void say(const char* s) { sys(SYS_write, 2, (long)s, strlen(s)); }
static uint8_t* map(size_t n) {
#if defined(__s390x__)
	unsigned long a[6] = { 0, n, 3, 0x22, (unsigned long)-1, 0 }; long r = sys(SYS_mmap, (long)a, 0, 0);
#else
	long r = sys(SYS_mmap, 0, n, 3, 0x22, -1, 0);
#endif
	if (r < 0 && r > -4096) { say("mmap failed\n"); quit(90); }
	return (uint8_t*)r;
}

// ---------------------------------------------------------------- library functions the sources and the compiler need
#define NOBUILTIN __attribute__((no_builtin))
extern "C" {
NOBUILTIN void* memcpy(void* d, const void* s, size_t n) { uint8_t* a = (uint8_t*)d; const uint8_t* b = (const uint8_t*)s; while (n--) *a++ = *b++; return d; }
NOBUILTIN void* memmove(void* d, const void* s, size_t n) { uint8_t* a = (uint8_t*)d; const uint8_t* b = (const uint8_t*)s; if (a <= b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
NOBUILTIN void* memset(void* d, int c, size_t n) { uint8_t* a = (uint8_t*)d; while (n--) *a++ = (uint8_t)c; return d; }
NOBUILTIN int memcmp(const void* x, const void* y, size_t n) { const uint8_t *a = (const uint8_t*)x, *b = (const uint8_t*)y; for (; n--; a++, b++) if (*a != *b) return *a - *b; return 0; }
NOBUILTIN size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
void abort(void) { say("abort\n"); quit(134); for (;;); }
void __cxa_pure_virtual(void) { abort(); }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_guard_acquire(uint64_t* g) { return !*(uint8_t*)g; }
void __cxa_guard_release(uint64_t* g) { *(uint8_t*)g = 1; }
void* __dso_handle = 0;
static uint64_t divmod(uint64_t a, uint64_t b, uint64_t* rem) { uint64_t q = 0, r = 0; for (int i = 63; i >= 0; i--) { r = (r << 1) | ((a >> i) & 1); if (r >= b) { r -= b; q |= (uint64_t)1 << i; } } if (rem) *rem = r; return q; }
#if defined(__arm__)
void __aeabi_memcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); } void __aeabi_memcpy4(void* d, const void* s, size_t n) { memcpy(d, s, n); } void __aeabi_memcpy8(void* d, const void* s, size_t n) { memcpy(d, s, n); }
void __aeabi_memmove(void* d, const void* s, size_t n) { memmove(d, s, n); } void __aeabi_memmove4(void* d, const void* s, size_t n) { memmove(d, s, n); } void __aeabi_memmove8(void* d, const void* s, size_t n) { memmove(d, s, n); }
void __aeabi_memset(void* d, size_t n, int c) { memset(d, c, n); } void __aeabi_memset4(void* d, size_t n, int c) { memset(d, c, n); } void __aeabi_memset8(void* d, size_t n, int c) { memset(d, c, n); }
void __aeabi_memclr(void* d, size_t n) { memset(d, 0, n); } void __aeabi_memclr4(void* d, size_t n) { memset(d, 0, n); } void __aeabi_memclr8(void* d, size_t n) { memset(d, 0, n); }
int __aeabi_atexit(void*, void (*)(void*), void*) { return 0; }
void __aeabi_unwind_cpp_pr0(void) {} void __aeabi_unwind_cpp_pr1(void) {}
uint64_t cross_divmod(uint64_t a, uint64_t b, uint64_t* r) { return divmod(a, b, r); }
__attribute__((naked)) void __aeabi_uldivmod(void) { asm volatile("push {r4, lr}\n sub sp, sp, #16\n add r4, sp, #8\n str r4, [sp]\n bl cross_divmod\n ldrd r2, r3, [sp, #8]\n add sp, sp, #16\n pop {r4, pc}"); }
unsigned cross_udiv(unsigned a, unsigned b) { return (unsigned)divmod(a, b, 0); }
unsigned __aeabi_uidiv(unsigned a, unsigned b) { return cross_udiv(a, b); }
int __aeabi_idiv(int a, int b) { unsigned q = cross_udiv(a < 0 ? 0u - a : a, b < 0 ? 0u - b : b); return (a < 0) != (b < 0) ? -(int)q : (int)q; }
uint64_t __aeabi_uidivmod_(unsigned a, unsigned b) { uint64_t r, q = divmod(a, b, &r); return q | r << 32; }
__attribute__((naked)) void __aeabi_uidivmod(void) { asm volatile("b __aeabi_uidivmod_"); }
#define FIXDFDI __aeabi_d2lz
#else
#define FIXDFDI __fixdfdi
#endif
#if !defined(__LP64__)
int64_t FIXDFDI(double d) { union { double d; uint64_t u; } x; x.d = d; int e = (int)((x.u >> 52) & 2047) - 1075; uint64_t m = (x.u & 0xfffffffffffffULL) | 0x10000000000000ULL; if (e <= -53) return 0; m = e < 0 ? m >> -e : m << e; return x.u >> 63 ? -(int64_t)m : (int64_t)m; }
uint64_t __udivdi3(uint64_t a, uint64_t b) { return divmod(a, b, 0); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; divmod(a, b, &r); return r; }
#endif
}

// ---------------------------------------------------------------- memory: results end flush (up to alignment) with an inaccessible page
static const size_t SLOT = 24u << 20, GUARD = 1 << 16, SMALL = 16 << 20;
enum { NSLOT = 3, NHEAP = 2 };
static uint8_t *slots[NSLOT], *heaps[NHEAP];
static struct { uint8_t* p; size_t n; size_t cap; bool used; } live[NHEAP];
static uint8_t* small; static size_t smallUsed; static bool booted;
static unsigned problems; static int nlive;
enum { P_CANARY = 1, P_LEAK = 2, P_FREE = 4, P_BIG = 8 };
static uint8_t* guarded(void) { uint8_t* p = map(SLOT + 2 * GUARD); p = (uint8_t*)(((uintptr_t)p + GUARD - 1) & ~(uintptr_t)(GUARD - 1)); if (sys(SYS_mprotect, (long)(p + SLOT), GUARD, 0) < 0) { say("mprotect failed\n"); quit(91); } return p; }
static const uint8_t CAN = 0xA7;
extern "C" {
void* malloc(size_t n) {
	if (!booted) { if (!small) small = map(SMALL); uint8_t* p = small + smallUsed; smallUsed += (n + 63) & ~(size_t)63; if (smallUsed > SMALL) abort(); return p; }
	if (n > SLOT - 4096) return 0;
	for (int i = 0; i < NHEAP; i++) if (!live[i].used) {
		size_t cap = (n + 15) & ~(size_t)15; uint8_t* p = heaps[i] + SLOT - cap;
		memset(p, 0xEE, n); memset(p + n, CAN, cap - n); memset(p - 64, CAN, 64);
		live[i].used = true; live[i].p = p; live[i].n = n; live[i].cap = cap; nlive++; return p;
	}
	return 0;
}
static void verify(int i) { for (size_t k = live[i].n; k < live[i].cap; k++) if (live[i].p[k] != CAN) problems |= P_CANARY; for (int k = 1; k <= 64; k++) if (live[i].p[-k] != CAN) problems |= P_CANARY; }
void free(void* v) { uint8_t* p = (uint8_t*)v; if (!p) return; if (p >= small && p < small + SMALL) return; for (int i = 0; i < NHEAP; i++) if (live[i].used && live[i].p == p) { verify(i); live[i].used = false; nlive--; return; } problems |= P_FREE; }
void* realloc(void* v, size_t n) { // the block moves, and what is beyond the new size is gone
	if (!v) return malloc(n);
	for (int i = 0; i < NHEAP; i++) if (live[i].used && live[i].p == v) { uint8_t* q = (uint8_t*)malloc(n ? n : 1); if (!q) return 0; size_t m = live[i].n < n ? live[i].n : n; memcpy(q, v, m); free(v); return q; }
	problems |= P_FREE; return 0;
}
void* calloc(size_t a, size_t b) { void* p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
int posix_memalign(void** o, size_t a, size_t n) { uint8_t* p = (uint8_t*)malloc(n + a); if (!p) return 12; *o = (void*)(((uintptr_t)p + a - 1) & ~(uintptr_t)(a - 1)); return 0; }
void* aligned_alloc(size_t a, size_t n) { void* p = 0; posix_memalign(&p, a, n); return p; }
}
void* operator new(size_t n) { return malloc(n); }
void* operator new[](size_t n) { return malloc(n); }
void operator delete(void* p) { free(p); }
void operator delete[](void* p) { free(p); }
void operator delete(void* p, size_t) { free(p); }

// ---------------------------------------------------------------- the processor that is simulated
static uint64_t hw[3];
extern "C" unsigned long getauxval(unsigned long k) { return (unsigned long)(k == 16 ? hw[0] : k == 26 ? hw[1] : 0); }
#ifdef __riscv
# include <stdarg.h>
# include <asm/hwprobe.h>
# include <asm/unistd.h>
extern "C" long syscall(long n, ...) { // the only call the sources make themselves
	va_list a; va_start(a, n); struct riscv_hwprobe* p = va_arg(a, struct riscv_hwprobe*); long k = va_arg(a, long); va_end(a);
	if (n != __NR_riscv_hwprobe || !hw[2]) return -1;
	for (long i = 0; i < k; i++) { if (p[i].key == RISCV_HWPROBE_KEY_IMA_EXT_0) p[i].value = hw[1]; else { p[i].key = -1; p[i].value = 0; } }
	return 0;
}
#endif
namespace RapidYenc {
	extern int _encode_isa __attribute__((weak)); extern int _decode_isa __attribute__((weak)); extern int _crc32_isa __attribute__((weak));
}

// ---------------------------------------------------------------- the runtime
static char strs[16384]; static int nstrs;
const char* v8::keep(const char* s, int n) { if (n < 0) n = (int)strlen(s); if (nstrs + n + 1 > (int)sizeof strs) abort(); char* d = strs + nstrs; memcpy(d, s, n); d[n] = 0; nstrs += n + 1; return d; }
static Value vals[256]; static int nvals; static Isolate iso; static bool freshAlloc[NSLOT];
Value* Value::make(Kind k) { if (nvals >= 256) abort(); Value* v = &vals[nvals++]; memset(v, 0, sizeof *v); v->kind = k; return v; }
Isolate* Isolate::GetCurrent() { return &iso; }
static struct { const char* name; FunctionCallback f; } methods[32]; static int nmethods;
void node::SetMethod(Local<v8::Object>, const char* n, FunctionCallback f) { if (nmethods < 32) { methods[nmethods].name = n; methods[nmethods++].f = f; } }
static uint8_t newbuf[4][4096]; static int nnew;
namespace node { namespace Buffer {
	MaybeLocal<v8::Object> New(Isolate*, size_t n) { Value* v = Value::make(K_BUF); if (n > 4096 || nnew >= 4) { problems |= P_BIG; n = 0; } v->data = newbuf[nnew++ & 3]; v->len = n; return Local<v8::Object>(v); }
	MaybeLocal<v8::Object> New(Isolate*, char* d, size_t n, FreeCb cb, void* h) { Value* v = Value::make(K_BUF); v->data = (uint8_t*)d; v->len = n; v->cb = cb; v->hint = h; return Local<v8::Object>(v); }
	static void plain(char* d, void*) { free(d); }
	MaybeLocal<v8::Object> New(Isolate* i, char* d, size_t n) { return New(i, d, n, plain, 0); }
	MaybeLocal<v8::Object> Copy(Isolate* i, const char* d, size_t n) { char* p = (char*)malloc(n); memcpy(p, d, n); return New(i, p, n, plain, 0); }
} }
#ifndef CROSS_INIT
#define CROSS_INIT node_init(Local<v8::Object>(Value::make(K_OBJ)), Local<Value>(), Local<Context>())
void node_init(Local<v8::Object>, Local<Value>, Local<Context>);
#endif

// ---------------------------------------------------------------- messages
static uint8_t *in, *out; static size_t ip, inLen, op;
static const size_t MSG = 64u << 20;
static void readAll(uint8_t* p, size_t n) { while (n) { long r = sys(SYS_read, 0, (long)p, n); if (r == -4) continue; if (r <= 0) quit(r == 0 ? 0 : 92); p += r; n -= r; } }
static void writeAll(uint8_t* p, size_t n) { while (n) { long r = sys(SYS_write, 1, (long)p, n); if (r == -4) continue; if (r <= 0) quit(93); p += r; n -= r; } }
static uint8_t g8() { return in[ip++]; }
static uint32_t g32() { uint32_t r = in[ip] | in[ip + 1] << 8 | in[ip + 2] << 16 | (uint32_t)in[ip + 3] << 24; ip += 4; return r; }
static uint64_t g64() { uint64_t a = g32(); return a | (uint64_t)g32() << 32; }
static void p8(uint8_t x) { out[op++] = x; }
static void p32(uint32_t x) { for (int i = 0; i < 4; i++) p8((uint8_t)(x >> (8 * i))); }
static void p64(uint64_t x) { p32((uint32_t)x); p32((uint32_t)(x >> 32)); }
static void pbytes(const uint8_t* p, size_t n) { p32((uint32_t)n); memcpy(out + op, p, n); op += n; }
static void pval(Value* v, Value** args, int nargs) {
	if (!v) { p8(K_UNDEF); return; }
	p8((uint8_t)v->kind);
	switch (v->kind) {
		case K_BOOL: p8(v->num != 0); break;
		case K_NUM: { union { double d; uint64_t u; } x; x.d = v->num; p64(x.u); break; }
		case K_STR: case K_ERR: pbytes((const uint8_t*)v->str, strlen(v->str)); break;
		case K_BUF: for (int i = 0; i < nargs; i++) if (args[i] == v) { p8((uint8_t)(i + 1)); return; } p8(0); pbytes(v->data, v->len); break;
		case K_OBJ: p8((uint8_t)v->nprops); for (int i = 0; i < v->nprops; i++) { pbytes((const uint8_t*)v->props[i].key, strlen(v->props[i].key)); pval(v->props[i].val, args, nargs); } break;
		default: break;
	}
}
static void release(Value* v, Value** args, int nargs) {
	if (!v) return;
	if (v->kind == K_OBJ) for (int i = 0; i < v->nprops; i++) release(v->props[i].val, args, nargs);
	if (v->kind == K_BUF && v->cb) { v->cb((char*)v->data, v->hint); v->cb = 0; }
}
static void call() {
	nvals = 0; nstrs = 0; nnew = 0; iso.thrown = 0; problems = 0;
	int fn = g8(), nreg = g8();
	uint8_t* rp[NSLOT]; size_t rl[NSLOT]; size_t at[NSLOT]; // regions: memory shared by Buffer arguments
	for (int i = 0; i < nreg; i++) {
		size_t n = g32(); uint8_t a = g8();
		if (n > SLOT - 8192) { say("too large\n"); quit(94); }
		rp[i] = a & 64 ? slots[i] + SLOT - n : slots[i] + SLOT - 8192 - ((n + 63) & ~(size_t)63) + (a & 63);
		rl[i] = n; at[i] = ip; memcpy(rp[i], in + ip, n); ip += n;
		memset(rp[i] - 128, CAN, 128); if (!(a & 64)) memset(rp[i] + n, CAN, 128); else at[i] |= (size_t)1 << (8 * sizeof(size_t) - 1);
	}
	int nargs = g8(); Value* args[16];
	for (int i = 0; i < nargs; i++) {
		Value* v = args[i] = Value::make((Kind)g8());
		if (v->kind == K_BOOL) v->num = g8();
		else if (v->kind == K_NUM) { union { double d; uint64_t u; } x; x.u = g64(); v->num = x.d; }
		else if (v->kind == K_BUF) { int r = g8(); uint32_t o = g32(); v->len = g32(); v->data = rp[r] + o; }
	}
	int before = nlive;
	Value* ret = 0; FunctionCallbackInfo<Value> info = { &iso, args, nargs, &ret };
	if (fn >= nmethods) { say("no such function\n"); quit(95); }
	methods[fn].f(info);
	op = 4; size_t flagAt = op; p8(0); p8(iso.thrown ? 1 : 0);
	for (int i = 0; i < NHEAP; i++) if (live[i].used) verify(i);
	pval(iso.thrown ? iso.thrown : ret, args, nargs);
	release(ret, args, nargs);
	if (nlive != before) problems |= P_LEAK;
	// what was changed in the arguments' memory
	for (int i = 0; i < nreg; i++) {
		bool flush = at[i] >> (8 * sizeof(size_t) - 1); uint8_t* orig = in + (at[i] & ~((size_t)1 << (8 * sizeof(size_t) - 1)));
		for (int k = 1; k <= 128; k++) if (rp[i][-k] != CAN) problems |= P_CANARY;
		if (!flush) for (int k = 0; k < 128; k++) if (rp[i][rl[i] + k] != CAN) problems |= P_CANARY;
		size_t a = 0, b = rl[i]; while (a < b && rp[i][a] == orig[a]) a++; while (b > a && rp[i][b - 1] == orig[b - 1]) b--;
		p32((uint32_t)a); pbytes(rp[i] + a, b - a);
	}
	out[flagAt] = (uint8_t)problems;
	for (int i = 0; i < NHEAP; i++) if (live[i].used) { live[i].used = false; nlive--; }
}
extern "C" { typedef void (*ctor)(void); extern ctor __init_array_start[] __attribute__((weak)); extern ctor __init_array_end[] __attribute__((weak)); }
extern "C" __attribute__((used)) void cross_main(void) {
	in = map(MSG); out = map(MSG);
	for (int i = 0; i < NSLOT; i++) slots[i] = guarded();
	for (int i = 0; i < NHEAP; i++) heaps[i] = guarded();
	for (;;) {
		uint8_t l[4]; readAll(l, 4); inLen = l[0] | l[1] << 8 | l[2] << 16 | (uint32_t)l[3] << 24;
		if (inLen > MSG) quit(96);
		readAll(in, inLen); ip = 0;
		if (g8() == 1) { // start: what the processor reports
			for (int i = 0; i < 3; i++) hw[i] = g64();
			if (__init_array_start) for (ctor* c = __init_array_start; c != __init_array_end; c++) (*c)();
			nvals = 0; CROSS_INIT; booted = true;
			op = 4; p8((uint8_t)nmethods); for (int i = 0; i < nmethods; i++) pbytes((const uint8_t*)methods[i].name, strlen(methods[i].name));
			p32(&RapidYenc::_encode_isa ? RapidYenc::_encode_isa : -1); p32(&RapidYenc::_decode_isa ? RapidYenc::_decode_isa : -1); p32(&RapidYenc::_crc32_isa ? RapidYenc::_crc32_isa : -1);
		} else call();
		size_t n = op; op = 0; p32((uint32_t)(n - 4)); op = n; writeAll(out, op);
	}
}
