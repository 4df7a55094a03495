// Test helper addon: Buffers placed directly against inaccessible pages, and page protection of inputs.
#include <node.h>
#include <node_buffer.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <malloc.h>
#include <stdio.h>
#include <unistd.h>
#include <string.h>
#include <dlfcn.h>
#include <link.h>
#include <limits.h>
#include <stdint.h>
#define YT_MAX 48
struct yt_region { char* base; size_t size; int64_t rlo, rhi, wlo, whi; int64_t asked; };	// as in memtrace.h
struct yt_all { int active; int n; int allocs; int pad; uint64_t accesses; struct yt_region r[YT_MAX]; };
using namespace v8;
static void nofree(char*, void*) {}
static void fail(Isolate* i, const char* m) { i->ThrowException(Exception::Error(String::NewFromUtf8(i, m).ToLocalChecked())); }
// region(pages) -> Buffer over `pages` accessible pages with 16 inaccessible ones on either side (never unmapped)
static void Region(const FunctionCallbackInfo<Value>& a) {
	Isolate* i = a.GetIsolate();
	size_t pg = (size_t)sysconf(_SC_PAGESIZE), n = (size_t)a[0].As<Integer>()->Value() * pg, g = 16 * pg;
	char* p = (char*)mmap(NULL, n + 2 * g, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED || mprotect(p + g, n, PROT_READ | PROT_WRITE)) return fail(i, "mmap");
	a.GetReturnValue().Set(node::Buffer::New(i, p + g, n, nofree, NULL).ToLocalChecked());
}
// protect(regionBuffer, 0 none | 1 read | 3 read+write)
static void Protect(const FunctionCallbackInfo<Value>& a) {
	int m = (int)a[1].As<Integer>()->Value();
	if (mprotect(node::Buffer::Data(a[0]), node::Buffer::Length(a[0]), m == 3 ? PROT_READ | PROT_WRITE : m == 1 ? PROT_READ : PROT_NONE)) fail(a.GetIsolate(), "mprotect");
}
static void Page(const FunctionCallbackInfo<Value>& a) { a.GetReturnValue().Set((double)sysconf(_SC_PAGESIZE)); }
// traced builds: attach(path of the addon), begin(regions...), end() -> {accesses, regions:[[rlo,rhi,wlo,whi,asked]...]}
static yt_all* yt;
struct seg { const char* name; char* lo; char* hi; };
static int phdr(struct dl_phdr_info* i, size_t, void* d) {
	seg* s = (seg*)d;
	if (!i->dlpi_name || strcmp(i->dlpi_name, s->name)) return 0;
	for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
		char* b = (char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
		if (!s->lo || b < s->lo) s->lo = b;
		if (b + i->dlpi_phdr[k].p_memsz > s->hi) s->hi = b + i->dlpi_phdr[k].p_memsz;
	}
	return 0;
}
static char path[4096];
static void Attach(const FunctionCallbackInfo<Value>& a) {
	Isolate* i = a.GetIsolate();
	String::Utf8Value p(i, a[0]); strncpy(path, *p, sizeof(path) - 1);
	void* h = dlopen(path, RTLD_LAZY | RTLD_NOLOAD);
	yt_all* (*f)(void) = h ? (yt_all*(*)(void))dlsym(h, "yt_state") : NULL;
	if (f) yt = f();
	a.GetReturnValue().Set(f != NULL);
}
static void add(char* p, size_t n) { yt_region* r = &yt->r[yt->n++]; r->base = p; r->size = n; r->asked = -1; r->rlo = r->wlo = INT64_MAX; r->rhi = r->whi = INT64_MIN; }
static void Begin(const FunctionCallbackInfo<Value>& a) {
	yt->n = 0; yt->allocs = 0; yt->accesses = 0;
	for (int k = 0; k < a.Length(); k++) add(node::Buffer::Data(a[k]), node::Buffer::Length(a[k]));
	yt->active = 1;
}
static void End(const FunctionCallbackInfo<Value>& a) {
	Isolate* i = a.GetIsolate(); Local<Context> c = i->GetCurrentContext();
	yt->active = 0;
	Local<Array> o = Array::New(i, 1 + 5 * yt->n);
	o->Set(c, 0, Number::New(i, (double)yt->accesses)).Check();
	for (int k = 0; k < yt->n; k++) {
		yt_region* r = &yt->r[k];
		double v[5] = { r->rlo < r->rhi ? (double)r->rlo : 0, r->rlo < r->rhi ? (double)r->rhi : 0, r->wlo < r->whi ? (double)r->wlo : 0, r->wlo < r->whi ? (double)r->whi : 0, (double)r->asked };
		for (int j = 0; j < 5; j++) o->Set(c, 1 + 5 * k + j, Number::New(i, v[j])).Check();
	}
	a.GetReturnValue().Set(o);
}
// the addon's writable segment (its global variables), as a Buffer
static void Globals(const FunctionCallbackInfo<Value>& a) {
	seg s = { path, NULL, NULL }; dl_iterate_phdr(phdr, &s);
	if (!s.lo) return fail(a.GetIsolate(), "no segment");
	a.GetReturnValue().Set(node::Buffer::New(a.GetIsolate(), s.lo, s.hi - s.lo, nofree, NULL).ToLocalChecked());
}
static void Align(const FunctionCallbackInfo<Value>& a) { a.GetReturnValue().Set((int)((uintptr_t)node::Buffer::Data(a[0]) & 63)); }
// control(Buffer over shared memory, path of threadhook.so): this thread's control words.  watch(mode 0 off | 1 call | 2 load, Buffers of the call...)
static void* hook;
static void Control(const FunctionCallbackInfo<Value>& a) {
	String::Utf8Value p(a.GetIsolate(), a[1]);
	hook = dlopen(*p, RTLD_NOW | RTLD_GLOBAL);
	if (!hook) return fail(a.GetIsolate(), dlerror());
	((void (*)(char*))dlsym(hook, "yh_control"))(node::Buffer::Data(a[0]));
}
static void Watch(const FunctionCallbackInfo<Value>& a) {
	char* p[60]; size_t n[60]; int k = 0;
	for (; k + 1 < a.Length() && k < 60; k++) { p[k] = node::Buffer::Data(a[k + 1]); n[k] = node::Buffer::Length(a[k + 1]); }
	((void (*)(int, int, char**, size_t*))dlsym(hook, "yh_watch"))((int)a[0].As<Integer>()->Value(), k, p, n);
}
// mallinfo() -> bytes of malloc memory in use;  limit(extra): no more than that much address space from here on, limit(-1): no limit
static void Mallinfo(const FunctionCallbackInfo<Value>& a) { struct mallinfo2 m = mallinfo2(); a.GetReturnValue().Set((double)m.uordblks + (double)m.hblkhd); }
static void Limit(const FunctionCallbackInfo<Value>& a) {
	struct rlimit r; getrlimit(RLIMIT_AS, &r);
	double extra = a[0].As<Number>()->Value(); long pages = 0;
	if (extra < 0) r.rlim_cur = r.rlim_max;
	else {
		FILE* f = fopen("/proc/self/statm", "r"); if (!f || fscanf(f, "%ld", &pages) != 1) return fail(a.GetIsolate(), "statm"); fclose(f);
		r.rlim_cur = (rlim_t)pages * (rlim_t)sysconf(_SC_PAGESIZE) + (rlim_t)extra;
	}
	if (setrlimit(RLIMIT_AS, &r)) fail(a.GetIsolate(), "setrlimit");
}
#include "step.inc"
NODE_MODULE_INIT() {
	NODE_SET_METHOD(exports, "control", Control);
	NODE_SET_METHOD(exports, "watch", Watch);
	NODE_SET_METHOD(exports, "mallinfo", Mallinfo);
	NODE_SET_METHOD(exports, "limit", Limit);
	NODE_SET_METHOD(exports, "cpu", Cpu);
	NODE_SET_METHOD(exports, "emulated", Emulated);
	NODE_SET_METHOD(exports, "traps", Traps);
	NODE_SET_METHOD(exports, "executed", Executed);
	NODE_SET_METHOD(exports, "align", Align);
	NODE_SET_METHOD(exports, "attach", Attach);
	NODE_SET_METHOD(exports, "begin", Begin);
	NODE_SET_METHOD(exports, "end", End);
	NODE_SET_METHOD(exports, "globals", Globals);
	NODE_SET_METHOD(exports, "region", Region);
	NODE_SET_METHOD(exports, "protect", Protect);
	NODE_SET_METHOD(exports, "page", Page);
}
