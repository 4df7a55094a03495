// Simulated CPUs and instruction recording, for addons prepared by isa.py: cpuid (0f a2) and xgetbv (0f 01 d0) are replaced by
// ud2 (0f 0b) and ud1 %eax,%eax (0f b9 c0), which the SIGILL handler emulates with whatever CPU is being simulated; the first byte of
// every instruction that needs an extension is replaced by int3 (cc), which the SIGTRAP handler notes and restores.
#include <signal.h>
#include <ucontext.h>
#include <vector>
#include <algorithm>
#include <stdlib.h>
struct cpurule { unsigned leaf, sub, reg, keep, set; };
static cpurule rules[64]; static int nrules; static unsigned long long xkeep = ~0ULL; static unsigned long long emulated;
static struct sigaction oldill;
static unsigned long long hostxcr() { unsigned a, d; __asm__ __volatile__("xgetbv" : "=a"(a), "=d"(d) : "c"(0)); return ((unsigned long long)d << 32) | a; }
static void onill(int sig, siginfo_t*, void* uc) {
	greg_t* g = ((ucontext_t*)uc)->uc_mcontext.gregs; unsigned char* ip = (unsigned char*)g[REG_RIP];
	if (ip[0] == 0x0f && ip[1] == 0x0b) {
		unsigned leaf = (unsigned)g[REG_RAX], sub = (unsigned)g[REG_RCX], r[4];
		__asm__ __volatile__("cpuid" : "=a"(r[0]), "=b"(r[1]), "=c"(r[2]), "=d"(r[3]) : "0"(leaf), "2"(sub));
		for (int k = 0; k < nrules; k++) if (rules[k].leaf == leaf && rules[k].sub == ((leaf == 7 || leaf == 0x24 || leaf == 0xd) ? sub : 0)) r[rules[k].reg] = (r[rules[k].reg] & rules[k].keep) | rules[k].set;
		g[REG_RAX] = r[0]; g[REG_RBX] = r[1]; g[REG_RCX] = r[2]; g[REG_RDX] = r[3]; g[REG_RIP] += 2; emulated++;
	} else if (ip[0] == 0x0f && ip[1] == 0xb9 && ip[2] == 0xc0) {
		unsigned long long x = hostxcr() & xkeep; g[REG_RAX] = (unsigned)x; g[REG_RDX] = (unsigned)(x >> 32); g[REG_RIP] += 3; emulated++;
	} else sigaction(SIGILL, &oldill, NULL);	// a genuine one: let it happen again
}
// cpu([leaf, sub, reg 0..3, keep, set]*, xcr0 mask)
static void Cpu(const FunctionCallbackInfo<Value>& a) {
	Isolate* i = a.GetIsolate(); Local<Context> c = i->GetCurrentContext(); Local<Array> v = a[0].As<Array>();
	static bool once; if (!once) { once = true; struct sigaction s; memset(&s, 0, sizeof s); s.sa_sigaction = onill; s.sa_flags = SA_SIGINFO; sigaction(SIGILL, &s, &oldill); }
	nrules = 0; unsigned* w = (unsigned*)rules;
	for (unsigned k = 0; k < v->Length() && k < 320; k++) w[k] = (unsigned)v->Get(c, k).ToLocalChecked()->NumberValue(c).FromJust(), nrules = (k + 1) / 5;
	xkeep = (unsigned long long)a[1]->NumberValue(c).FromJust();
}
static void Emulated(const FunctionCallbackInfo<Value>& a) { a.GetReturnValue().Set((double)emulated); emulated = 0; }

// traps(addresses, first bytes): where int3 was written, relative to the load address, in ascending order
static std::vector<uint32_t> trapat; static std::vector<unsigned char> trapbyte, traphit;
static struct sigaction oldtrap;
struct xseg { uintptr_t ip; char* lo; char* hi; char* base; };
static xseg xs;
static int xphdr(struct dl_phdr_info* i, size_t, void* d) {
	xseg* s = (xseg*)d;
	for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
		char* lo = (char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, *hi = lo + i->dlpi_phdr[k].p_memsz;
		if (s->ip >= (uintptr_t)lo && s->ip < (uintptr_t)hi) { s->lo = lo; s->hi = hi; s->base = (char*)i->dlpi_addr; return 1; }
	}
	return 0;
}
static void ontrap(int, siginfo_t*, void* uc) {
	greg_t* g = ((ucontext_t*)uc)->uc_mcontext.gregs; uintptr_t ip = (uintptr_t)g[REG_RIP] - 1;
	if (ip < (uintptr_t)xs.lo || ip >= (uintptr_t)xs.hi) {		// another copy of the addon
		xs.ip = ip; xs.lo = xs.hi = NULL;
		if (!dl_iterate_phdr(xphdr, &xs)) { sigaction(SIGTRAP, &oldtrap, NULL); return; }
		char* lo = (char*)((uintptr_t)xs.lo & ~4095UL);
		mprotect(lo, xs.hi - lo, PROT_READ | PROT_WRITE | PROT_EXEC);
	}
	uint32_t off = (uint32_t)(ip - (uintptr_t)xs.base);
	std::vector<uint32_t>::iterator it = std::lower_bound(trapat.begin(), trapat.end(), off);
	if (it == trapat.end() || *it != off) { sigaction(SIGTRAP, &oldtrap, NULL); return; }
	size_t k = it - trapat.begin();
	traphit[k] = 1; *(volatile unsigned char*)ip = trapbyte[k]; g[REG_RIP] = (greg_t)ip;
}
static void Traps(const FunctionCallbackInfo<Value>& a) {
	Isolate* i = a.GetIsolate(); Local<Context> c = i->GetCurrentContext(); Local<Array> v = a[0].As<Array>(), b = a[1].As<Array>();
	for (unsigned k = 0; k < v->Length(); k++) { trapat.push_back((uint32_t)v->Get(c, k).ToLocalChecked()->NumberValue(c).FromJust()); trapbyte.push_back((unsigned char)b->Get(c, k).ToLocalChecked()->NumberValue(c).FromJust()); }
	traphit.assign(trapat.size(), 0);
	struct sigaction s; memset(&s, 0, sizeof s); s.sa_sigaction = ontrap; s.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &s, &oldtrap);
}
// executed() -> the addresses of traps reached since the last call
static void Executed(const FunctionCallbackInfo<Value>& a) {
	Isolate* i = a.GetIsolate(); std::vector<Local<Value> > out;
	for (size_t k = 0; k < traphit.size(); k++) if (traphit[k]) { traphit[k] = 0; out.push_back(Number::New(i, (double)trapat[k])); }
	a.GetReturnValue().Set(Array::New(i, out.data(), out.size()));
}
