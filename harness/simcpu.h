/* Force-included (-include) into every C/C++ file of a scratch build of the addon.
 * Lets the process simulate a lesser CPU: whatever cpuid reports is ANDed with masks taken from the
 * environment variable YSIM (and a family/model override), so that run-time dispatch picks another
 * implementation.  Feature bits are only ever removed, never added: what is selected can always run.
 * With YSIM unset it is transparent.
 *
 * YSIM = ";"-separated "leaf.sub.reg&mask" (hex; reg a,b,c,d), e.g. "1.0.c&fffffdff", and
 *        "leaf.sub.reg=value" to replace a register (used for family/model in 1.0.a only), and
 *        "x&mask" for XCR0 (see the macro for _GET_XCR below: only if the source uses xgetbv asm via
 *        a function of that name it is out of reach; OSXSAVE is masked instead).
 */
#ifndef YENC_SIMCPU_H
#define YENC_SIMCPU_H
#if defined(__x86_64__) && (defined(__GNUC__) || defined(__clang__))
#include <cpuid.h>
#include <stdlib.h>
#include <string.h>
static __inline__ __attribute__((unused)) void ysim_mask(unsigned leaf, unsigned sub, unsigned *r) {
	const char *s = getenv("YSIM");
	while (s && *s) {
		char *e;
		unsigned l = (unsigned)strtoul(s, &e, 16);
		if (*e != '.') break;
		unsigned u = (unsigned)strtoul(e + 1, &e, 16);
		if (*e != '.') break;
		int reg = e[1] - 'a';
		char op = e[2];
		unsigned v = (unsigned)strtoul(e + 3, &e, 16);
		if (l == leaf && u == sub && reg >= 0 && reg < 4) {
			if (op == '&') r[reg] &= v;
			else if (op == '=') r[reg] = v;
		}
		s = *e ? e + 1 : e;
	}
}
static __inline__ __attribute__((unused)) void ysim_cpuid(unsigned leaf, unsigned sub, unsigned *r) {
	__asm__ __volatile__("cpuid" : "=a"(r[0]), "=b"(r[1]), "=c"(r[2]), "=d"(r[3]) : "0"(leaf), "2"(sub));
	ysim_mask(leaf, sub, r);
}
#undef __cpuid
#undef __cpuid_count
#define __cpuid_count(level, count, a, b, c, d) do { unsigned ysim_r[4]; ysim_cpuid((unsigned)(level), (unsigned)(count), ysim_r); \
	(a) = ysim_r[0]; (b) = ysim_r[1]; (c) = ysim_r[2]; (d) = ysim_r[3]; } while (0)
#define __cpuid(level, a, b, c, d) __cpuid_count(level, 0, a, b, c, d)
static __inline__ __attribute__((unused)) int ysim_get_cpuid_count(unsigned l, unsigned s, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
	unsigned r[4]; ysim_cpuid(l & 0x80000000u, 0, r);
	if (r[0] == 0 || r[0] < l) return 0;
	ysim_cpuid(l, s, r); *a = r[0]; *b = r[1]; *c = r[2]; *d = r[3]; return 1;
}
#define __get_cpuid_count(l, s, a, b, c, d) ysim_get_cpuid_count(l, s, a, b, c, d)
#define __get_cpuid(l, a, b, c, d) ysim_get_cpuid_count(l, 0, a, b, c, d)
#endif
#endif
