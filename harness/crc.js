'use strict';
// CRC32 executions (C08, C09; reused by C19).
const C = require('./common.js');
const { P, T, y, Rng, crcRef, B, rec, sample, due, mismatch, count, calling, main, shrink, view } = C;
const N = P.n || 1;
const POLY = (T.crcpoly[0] * 65536 + T.crcpoly[1]) >>> 0;
const pair = v => [v >>> 16, v & 0xffff];
let made = [];   // the Buffers given to the call being made
const buf = v => { const b = Buffer.allocUnsafe(4); b.writeUInt32BE(v >>> 0); made.push(b); return b; };
const num = b => (Buffer.isBuffer(b) && b.length === 4) ? b.readUInt32BE(0) : -1;
const times = v => (v & 1) ? ((v >>> 1) ^ POLY) >>> 0 : v >>> 1;
function mul(a, b) { let r = 0; for (let k = 0; k < 32; k++) { r = times(r); if ((b >>> k) & 1) r = (r ^ a) >>> 0; } return r; }
const ORD = 0xffffffffn;
function xpow(n) { let e = ((BigInt(n) % ORD) + ORD) % ORD, r = 0x80000000, b = 0x40000000; while (e) { if (e & 1n) r = mul(r, b); b = mul(b, b); e >>= 1n; } return r; }
function limbs(n) { let a = BigInt(n); if (a < 0n) a = -a; const o = []; do { o.unshift(Number(a & 0xffffn)); a >>= 16n; } while (a); return o; }
const overlap = (a, b) => a.buffer === b.buffer && a.byteOffset < b.byteOffset + b.length && b.byteOffset < a.byteOffset + a.length;
function attempt(f) {
	made = [];
	try { const r = f(), v = num(r); return v < 0 ? { failed: 'not a 4 byte Buffer' } : made.some(b => overlap(r, b)) ? { failed: 'the result is an argument' } : v; } catch (e) { return { failed: 'threw ' + e.message }; }
}
function wrap(e, v) { if (typeof v === 'object') { e.failed = v.failed; e.out = [0, 0]; } else e.out = pair(v); return e; }

function fill(g, d) { const k = g.n(6); if (k === 0) d.fill(0); else if (k === 1) d.fill(255); else if (k === 2) { d.fill(0); if (d.length) d[g.n(d.length)] = g.u(); } else if (k === 3) { d.fill(0); if (d.length) d[d.length - 1 - g.n(Math.min(d.length, 40))] = 1 << g.n(8); } else for (let i = 0; i < d.length; i++) d[i] = g.u(); }
const VALS = [0, 0xffffffff, 1, 0x80000000, 0x40000000, 0x7fffffff, 0xfffffffe, 0xEDB88320, 0xdebb20e3, 0x2144df1c, 0xffff0000, 0x0000ffff, 0x12345678, 2, 0xb6];
const val = g => g.p(0.3) ? g.pick(VALS) : g.u();

function checkCrc(g, d, init) {
	rec.evaluations++;
	const al = d.byteOffset & 63;
	const run = x => attempt(() => init === undefined ? y.crc32(x) : y.crc32(x, buf(init)));
	const ev = (x, o) => wrap({ op: 'crc', data: B(x), init: pair(init || 0), align: al }, o);
	calling(() => ({ op: 'crc', data: B(d), init: pair(init || 0), align: al, out: [0, 0] }));
	const o = run(d);
	if (o !== crcRef(d, init)) {
		if (d.length > 20 && rec.mismatches.length < 6) {
			const at = x => { const v = Buffer.allocUnsafeSlow(x.length + 64).subarray(al); const w = v.subarray(0, x.length); x.copy(w); return w; };
			const s = shrink(d, x => run(at(x)) !== crcRef(x, init)), w = at(s), o2 = run(w);
			if (o2 !== crcRef(s, init)) return mismatch(ev(s, o2));
		}
		mismatch(ev(d, o));
	} else if (d.length < 700 && due()) sample(() => ev(d, o));
}
function exps(g) { // exponents / byte counts, with JS numbers exactly representable
	const k = g.n(10);
	if (k === 0) return g.n(300);
	if (k === 1) return g.n(1 << 20);
	if (k === 2) return g.u();
	if (k === 3) return g.u() * (1 << g.n(21)) + g.n(1000);
	if (k === 4) return 4294967295 * g.r(1, 1 << 20) + g.n(5) - 2;
	if (k === 5) return Math.pow(2, g.n(53)) + g.n(3) - 1;
	if (k === 6) return Number.MAX_SAFE_INTEGER - g.n(4);
	if (k === 7) return 4294967295 + g.n(9) - 4;
	if (k === 8) return Math.floor(4294967295 / 8) + g.n(9) - 4;
	return Math.floor(Math.pow(2, 20 + g.n(33)) * (1 + g.u() / 4294967296));
}
function checkOp(e, f, exp) { rec.evaluations++; calling(() => Object.assign({ out: [0, 0] }, e)); const o = attempt(f); if (o !== exp) mismatch(wrap(e, o)); else if (due()) sample(() => wrap(e, o)); }
const jobs = {
	lengths() { // all lengths x alignments
		const g = new Rng(P.seed);
		for (let n = P.from || 0; n <= (P.to || 600); n++) for (let k = 0; k < (P.per || 6); k++) {
			const d = view(0, n, P.per >= 64 ? k & 63 : g.n(64)); fill(g, d); checkCrc(g, d, g.p(0.4) ? undefined : val(g));
		}
	},
	random() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) { const n = g.pick([g.n(400), g.n(3000), g.n(70000)]), d = view(0, n, g.n(64)); fill(g, d); checkCrc(g, d, g.p(0.3) ? undefined : val(g)); }
	},
	long() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) { const n = g.r(100000, 2000000), d = view(0, n, g.n(64)); fill(g, d); checkCrc(g, d, g.p(0.5) ? undefined : val(g)); }
	},
	basis() { // linearity: every single bit of messages of several lengths, every bit of the initial value
		const g = new Rng(P.seed);
		for (const n of P.sizes || [1, 4, 15, 16, 17, 31, 32, 47, 63, 64, 65, 79, 95, 127, 128, 129, 255, 256, 257, 300]) {
			const d = view(0, n, g.n(64)); d.fill(0);
			for (let i = 0; i < n; i++) { const bit = 1 << ((i + n) & 7); d[i] = bit; checkCrc(g, d, undefined); d[i] = 0; }
			for (let i = 0; i < 32; i++) checkCrc(g, d, (1 << i) >>> 0);
		}
	},
	linear() { // every alignment and length up to two rounds of any kernel and what may be left: one bit (or all) of each byte, of the initial value
		// (CrcBlocks: what the kernels do is linear in the data, so the messages with one bit set decide a length and alignment)
		const g = new Rng(P.seed), max = P.to || 260, one = [], all = P.all ? [0, 1, 2, 3, 4, 5, 6, 7] : null;
		for (let b = 0, z = crcRef(Buffer.alloc(1)); b < 8; b++) { let v = (crcRef(Buffer.from([1 << b])) ^ z) >>> 0; for (let k = 0; k <= max; k++) { one[k * 8 + b] = v; for (let i = 0; i < 8; i++) v = times(v); } }
		for (let al = 0; al < 64; al += P.step || 1) for (let n = P.from || 1; n <= max; n++) {
			const d = view(0, n, al), z0 = (() => { d.fill(0); return crcRef(d); })(), xn = xpow(8 * n);
			const probe = (exp, init) => { rec.evaluations++; calling(() => ({ op: 'crc', data: B(d), init: pair(init || 0), align: al, out: [0, 0] })); const o = attempt(() => init === undefined ? y.crc32(d) : y.crc32(d, buf(init))); if (o !== exp) { rec.evaluations--; checkCrc(g, d, init); } };
			for (let i = 0; i < n; i++) for (const b of all || [g.n(8)]) { d[i] = 1 << b; probe((z0 ^ one[(n - 1 - i) * 8 + b]) >>> 0); d[i] = 0; }
			for (let i = all ? 0 : 32; i < 32; i++) probe((z0 ^ mul((1 << i) >>> 0, xn)) >>> 0, (1 << i) >>> 0);
			const i = g.n(32); probe((z0 ^ mul((1 << i) >>> 0, xn)) >>> 0, (1 << i) >>> 0);
		}
	},
	pieces() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			rec.evaluations++;
			const n = g.pick([g.n(40), g.n(400), g.n(5000)]), d = view(0, n, g.n(64)); fill(g, d);
			const init = val(g), cuts = []; let p = 0;
			do { const l = Math.min(n - p, g.pick([0, 1, g.n(20), g.n(100), g.n(1000), n])); cuts.push(d.subarray(p, p + l)); p += l; } while (p < n && cuts.length < 40);
			if (p < n) cuts.push(d.subarray(p));
			let c = init, ok = true, fail; const outs = [];
			calling(() => ({ op: 'pieces', init: pair(init), pieces: cuts.map(B), outs: [], whole: [0, 0] }));
			for (const x of cuts) { const o = attempt(() => y.crc32(x, buf(c))); if (typeof o === 'object') { fail = o.failed; outs.push(0); ok = false; break; } if (o !== crcRef(x, c)) ok = false; outs.push(o); c = o; }
			let w = attempt(() => y.crc32(d, buf(init))); if (typeof w === 'object') { fail = w.failed; w = 0; }
			if (w !== c) ok = false;
			const ev = () => { const e = { op: 'pieces', init: pair(init), pieces: cuts.map(B), outs: outs.map(pair), whole: pair(w) }; if (fail) e.failed = fail; return e; };
			if (!ok) mismatch(ev()); else if (n < 1500 && due()) sample(ev);
		}
	},
	join() { // combine against real hashes
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			rec.evaluations++;
			const a = view(0, g.pick([g.n(30), g.n(500)]), g.n(64)), b = view(1, g.pick([0, 1, g.n(30), g.n(500), g.n(100000)]), g.n(64)); fill(g, a); fill(g, b);
			calling(() => ({ op: 'join', a: B(a), b: B(b) }));
			const ca = attempt(() => y.crc32(a)), cb = attempt(() => y.crc32(b)), cab = attempt(() => y.crc32(b, buf(ca))), o = attempt(() => y.crc32_combine(buf(ca), buf(cb), b.length));
			const ev = () => { const e = { op: 'join', a: B(a), b: B(b), n: limbs(b.length) }; for (const [n, v] of [['ca', ca], ['cb', cb], ['cab', cab], ['out', o]]) { if (typeof v === 'object') { e.failed = v.failed; e[n] = [0, 0]; } else e[n] = pair(v); } return e; };
			if (o !== cab || ca !== crcRef(a) || cb !== crcRef(b) || cab !== crcRef(b, ca)) mismatch(ev()); else if (b.length < 600 && due()) sample(ev);
		}
	},
	algebra() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const x = val(g), z = val(g), n = exps(g), neg = g.p(0.5), sn = neg ? -n : n;
			checkOp({ op: 'multiply', x: pair(x), y: pair(z) }, () => y.crc32_multiply(buf(x), buf(z)), mul(x, z));
			checkOp({ op: 'shift', x: pair(x), neg, n: limbs(n) }, () => y.crc32_shift(sn, buf(x)), mul(x, xpow(sn)));
			if (g.p(0.2)) checkOp({ op: 'shift', x: pair(0x80000000), neg, n: limbs(n) }, () => y.crc32_shift(sn), xpow(sn));
			checkOp({ op: 'zeroes', x: pair(x), neg, n: limbs(n) }, () => y.crc32_zeroes(sn, buf(x)), ~mul(~x >>> 0, xpow(BigInt(sn) * 8n)) >>> 0);
			if (g.p(0.2)) checkOp({ op: 'zeroes', x: pair(0), neg, n: limbs(n) }, () => y.crc32_zeroes(sn), ~mul(0xffffffff, xpow(BigInt(sn) * 8n)) >>> 0);
			checkOp({ op: 'combine', x: pair(x), y: pair(z), n: limbs(n) }, () => y.crc32_combine(buf(x), buf(z), n), (mul(x, xpow(BigInt(n) * 8n)) ^ z) >>> 0);
		}
	},
	small() { // all small exponents, both signs, and all powers of two
		const g = new Rng(P.seed), es = [];
		for (let n = 0; n <= (P.maxExp || 1200); n++) es.push(n);
		for (let k = 11; k < 53; k++) es.push(Math.pow(2, k), Math.pow(2, k) - 1, Math.pow(2, k) + 1);
		es.push(Number.MAX_SAFE_INTEGER);
		for (const n of es) for (const sn of n ? [n, -n] : [0]) {
			const x = g.p(0.3) ? 0x80000000 : val(g), neg = sn < 0;
			checkOp({ op: 'shift', x: pair(x), neg, n: limbs(n) }, () => y.crc32_shift(sn, buf(x)), mul(x, xpow(sn)));
			checkOp({ op: 'zeroes', x: pair(x), neg, n: limbs(n) }, () => y.crc32_zeroes(sn, buf(x)), ~mul(~x >>> 0, xpow(BigInt(sn) * 8n)) >>> 0);
			if (!neg) checkOp({ op: 'combine', x: pair(x), y: pair(1), n: limbs(n) }, () => y.crc32_combine(buf(x), buf(1), n), (mul(x, xpow(BigInt(n) * 8n)) ^ 1) >>> 0);
		}
		for (let i = 0; i < 32; i++) for (let j = 0; j < 32; j++) checkOp({ op: 'multiply', x: pair((1 << i) >>> 0), y: pair((1 << j) >>> 0) }, () => y.crc32_multiply(buf(1 << i), buf(1 << j)), mul((1 << i) >>> 0, (1 << j) >>> 0));
	},
};
main(jobs);
