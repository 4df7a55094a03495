'use strict';
// Runs the addon, built for another architecture, on simulated systems; records which optional features what it executes needs, and checks its results (C21).
const C = require('./common.js');
const { P, Rng, rec, cross, sample, due, mismatch, count, calling, main, fs, y } = C;
const L = require('./calllib.js');
const NATIVE = ['encode', 'raw', 'decode', 'chunk', 'crc', 'zeroes', 'multiply', 'combine'];
// the emulator's processor for a system
function model(s) {
	const has = x => s.f.indexOf(x) >= 0;
	if (s.arch === 'riscv64') return 'rv64,v=' + has('V') + (has('V') ? ',vlen=' + s.vlen : '') + ',zbc=' + has('ZBC') + ',zbkc=' + has('ZBKC');
	if (s.arch === 'arm') return has('CRC32') || has('PMULL') ? 'max' : has('NEON') ? 'cortex-a15' : 'cortex-a15,neon=off,vfp-d32=off';
	return 'max';
}
const jobs = {
	systems() {
		const g = new Rng(P.seed), all = JSON.parse(fs.readFileSync(P.systems)).filter(s => s.arch === cross.arch).filter((s, k) => k % P.of === P.part);
		for (const s of all) {
			const w = [0n, 0n]; for (const [i, b] of s.report) w[i] |= 1n << BigInt(b);
			const ev = { judge: 'TraceArch', op: 'arch', arch: s.arch, f: s.f, known: s.known, codec: s.codec, crc: s.crc };
			const e = cross.use(model(s), [String(w[0]), String(w[1]), s.probe ? '1' : '0'], true);
			if (e && e.refused) { count('processors this emulator lacks'); continue; }
			rec.evaluations++;
			if (e) { ev.failed = e.said; mismatch(ev); continue; }
			let died = null;
			for (let k = 0; k < (P.more || 30) && !died; k++) {
				const n = g.r(1, k % 5 ? 500 : 3000);
				for (const x of NATIVE) {
					const c = L.gen(g, n, [x]), r = L.run(y, c); rec.evaluations++;
					const [ok, e] = L.check(c, r); e.arch = s.arch; e.f = s.f; e.known = s.known; e.vlen = s.vlen;
					if (!ok) { mismatch(e); if (r && r.threw) { died = r.threw; break; } } else if (due()) sample(() => e);
				}
			}
			if (died) { ev.failed = died; mismatch(ev); continue; }
			const x = cross.executed(); ev.executed = x.features; count('instructions', x.instructions); count(s.arch + ' ' + s.codec + '/' + s.crc);
			rec.samples.push(ev);                           // all of them are judged by TLC
		}
	},
};
main(jobs);
