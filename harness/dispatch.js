'use strict';
// Loads copies of the addon under simulated CPUs; records which instruction-set extensions it executes, and checks its results (C19).
const C = require('./common.js');
const { P, Rng, rec, sample, due, mismatch, count, calling, main, fs } = C;
const path = require('path');
const H = require(P.guard), MAP = JSON.parse(fs.readFileSync(P.isamap)), CPUS = JSON.parse(fs.readFileSync(P.cpus)), BITS = CPUS.bits;
H.traps(Object.keys(MAP).map(Number), Object.keys(MAP).map(a => MAP[a][0]));
const L = require('./calllib.js');

// CPUID rules: [leaf, sub, register, bits kept, bits set]; only features the host really has are ever offered for execution
function rules(f) {
	const has = x => f.indexOf(x) >= 0, m = {};
	const at = (leaf, sub, reg) => m[leaf + '.' + sub + '.' + reg] || (m[leaf + '.' + sub + '.' + reg] = [leaf, sub, reg, 0xffffffff, 0]);
	for (const k in BITS) { const [leaf, sub, reg, bit] = BITS[k], r = at(leaf === 1073741824 ? 0x80000001 : leaf, sub, reg), b = (1 << bit) >>> 0; r[3] = (r[3] & ~b) >>> 0; if (has(k)) r[4] = (r[4] | b) >>> 0; }
	const x = at(1, 0, 2); x[3] = (x[3] & ~(1 << 26)) >>> 0; if (has('OSXSAVE') || has('AVX')) x[4] = (x[4] | 1 << 26) >>> 0;      // XSAVE itself
	const v = at(0x24, 0, 1); v[3] = 0; v[4] = has('AVX10') ? (has('AVX10512') ? 0x70001 : 0x30001) : 0;
	const a = at(1, 0, 0); a[3] = 0; a[4] = has('SLOWSSSE3') ? 0x106c2 : has('SLOWBLEND') ? 0x506c9 : has('BOBCAT') ? 0x500f20 : 0x306c3;   // Bonnell, Goldmont, Bobcat, Haswell
	return [].concat.apply([], Object.keys(m).map(k => m[k]));
}
const xcr = f => 3 + (f.indexOf('YMM') >= 0 ? 4 : 0) + (f.indexOf('ZMM') >= 0 ? 0xe0 : 0);

let seq = 0;
function load(cpu) {
	const dir = path.join(path.dirname(P.out), 'cpu' + (seq++)), node = path.join(dir, 'build/Release/yencode.node');
	fs.mkdirSync(path.join(dir, 'build/Release'), { recursive: true });
	fs.copyFileSync(path.join(P.pkg, 'index.js'), path.join(dir, 'index.js')); fs.copyFileSync(P.patched, node);
	if (fs.existsSync(path.join(P.pkg, 'package.json'))) fs.copyFileSync(path.join(P.pkg, 'package.json'), path.join(dir, 'package.json'));
	H.cpu(rules(cpu.f), xcr(cpu.f));
	return { dir, node };
}
const NATIVE = ['encode', 'raw', 'decode', 'chunk', 'crc', 'zeroes', 'multiply', 'combine'];
const jobs = {
	cpus() {
		const g = new Rng(P.seed), flags = fs.readFileSync('/proc/cpuinfo', 'latin1');
		const all = CPUS.cpus.filter((c, k) => k % P.of === P.part), levels = {};
		for (const cpu of all) {
			if (!runnable(cpu, flags)) { count('not executable on this host'); continue; }
			const { dir } = load(cpu);
			H.executed();
			calling(() => ({ op: 'dispatch', cpu: cpu.f, executed: [], codec: cpu.codec, crc: cpu.crc }));
			const y = require(path.join(dir, 'index.js')), addrs = {};
			if (!H.emulated()) throw new Error('cpuid was not intercepted');
			const record = () => H.executed().forEach(a => { addrs[a] = 1; });
			record();
			for (let k = 0; k < (P.more || 30); k++) {
				const n = g.r(1, k % 5 ? 500 : 3000), cs = NATIVE.map(x => L.gen(g, n, [x])), rs = cs.map(c => L.run(y, c));
				record();
				cs.forEach((c, q) => { rec.evaluations++; const [ok, e] = L.check(c, rs[q]); e.cpu = cpu.f; if (!ok) mismatch(e); else if ((k + q) % 5 === 0 && due()) sample(() => e); });
			}
			rec.evaluations++;
			const ex = {}; let na = 0; for (const a in addrs) { na++; for (const x of MAP[a][1]) ex[x] = 1; }
			const e = { judge: 'TraceDispatch', op: 'dispatch', cpu: cpu.f, executed: Object.keys(ex), codec: cpu.codec, crc: cpu.crc };
			count('instructions', na); count(cpu.codec + '/' + cpu.crc);
			rec.samples.push(e);                              // all of them are judged by TLC
		}
		H.cpu([], 0xff);
	},
};
// the host must itself have what is offered
const NAMES = { SSE3: 'pni', SSSE3: 'ssse3', SSE41: 'sse4_1', SSE42: 'sse4_2', POPCNT: 'popcnt', PCLMULQDQ: 'pclmulqdq', BMI1: 'bmi1', BMI2: 'bmi2', LZCNT: 'abm', AVX: 'avx', AVX2: 'avx2', VPCLMULQDQ: 'vpclmulqdq', AVX512F: 'avx512f', AVX512BW: 'avx512bw', AVX512VL: 'avx512vl', AVX512DQ: 'avx512dq', AVX512VBMI: 'avx512vbmi', AVX512VBMI2: 'avx512_vbmi2', AVX10: 'avx512_vbmi2' };
function runnable(cpu, flags) { return cpu.f.every(x => !NAMES[x] || new RegExp('\\b' + NAMES[x] + '\\b').test(flags)); }
main(jobs);
