'use strict';
// Shared by all drivers: the library under test, table-interpreting oracles (tables come from TLC), generators, recording.
const fs = require('fs');
const P = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const T = JSON.parse(fs.readFileSync(P.tables, 'utf8'));
const t0 = Date.now();
const cross = fs.existsSync(P.pkg + '/cross.json') ? require('./cross/bridge.js')(P) : null; // another architecture's build

// ---------------------------------------------------------------- random numbers (deterministic per job)
function Rng(seed) { this.a = (seed ^ 0x9e3779b9) >>> 0; this.b = (seed * 0x85ebca6b + 0x1234567) >>> 0; for (let i = 0; i < 12; i++) this.u(); }
Rng.prototype.u = function () { // sfc-like 32-bit
	let t = (this.a + this.b) | 0; this.a = this.b ^ (this.b >>> 9); this.b = (Math.imul(this.a, 9) + t) | 0;
	t = Math.imul(t ^ (t >>> 15), 0x2c1b3c6d); t = Math.imul(t ^ (t >>> 12), 0x297a2d39); return (t ^ (t >>> 15)) >>> 0;
};
Rng.prototype.n = function (k) { return Math.floor(this.u() / 4294967296 * k); };       // 0..k-1
Rng.prototype.r = function (a, b) { return a + this.n(b - a + 1); };                     // a..b
Rng.prototype.pick = function (xs) { return xs[this.n(xs.length)]; };
Rng.prototype.p = function (x) { return this.u() < x * 4294967296; };

// ---------------------------------------------------------------- oracles, interpreting the exported tables
const encT = [0, 1, 2, 3, 4, 5, 6, 7].map(k => T.enc[k & 1][(k >> 1) & 1][(k >> 2) & 1].map(u => u.length === 1 ? u[0] : (u[0] << 8 | u[1] | 0x10000)));
const BRK = T.linebreak;
function encodeRef(data, ls, col) {
	if (ls === 0) ls = T.deflinesize;
	if (col === ls) col = 0;
	const n = data.length, o = Buffer.allocUnsafe(n * 2 + 2 * (Math.floor(2 * n / ls) + 2));
	let p = 0;
	for (let i = 0; i < n; i++) {
		if (col >= ls) { o[p++] = BRK[0]; o[p++] = BRK[1]; col = 0; }
		const u = encT[(col === 0 ? 1 : 0) | (col === ls - 1 ? 2 : 0) | (i === n - 1 ? 4 : 0)][data[i]];
		if (u & 0x10000) { o[p++] = (u >> 8) & 255; o[p++] = u & 255; col += 2; }
		else { o[p++] = u; col++; }
	}
	return o.subarray(0, p);
}
const MODE = { plain: 0, raw: 1, chunk: 2 };
const decO = [], decS = [], decE = [];
T.dec.forEach((m, i) => {
	decO[i] = new Int16Array(7 * 256); decS[i] = new Uint8Array(7 * 256); decE[i] = new Uint8Array(7 * 256);
	m.forEach((s, si) => s.forEach((x, b) => { decO[i][si * 256 + b] = x[0]; decS[i][si * 256 + b] = x[1]; decE[i][si * 256 + b] = x[2]; }));
});
// returns {o, r, st, end}
function decodeRef(mode, data, st) {
	const m = MODE[mode], O = decO[m], S = decS[m], E = decE[m], n = data.length;
	if (st === undefined) st = T.start[m];
	const o = Buffer.allocUnsafe(n);
	let p = 0, i = 0, end = 0;
	for (; i < n; i++) {
		const k = st * 256 + data[i], x = O[k];
		if (x >= 0) o[p++] = x;
		st = S[k];
		if (E[k]) { end = E[k]; i++; break; }
	}
	return { o: o.subarray(0, p), r: i, st: st, end: end };
}
// the transport monitor in JS: where something suspicious is, or -1 (a filter: anything suspicious, plus samples, is judged by the specification)
const CRIT = new Uint8Array(256); [0, 10, 13, 61].forEach(c => { CRIT[c] = 1; });
function transportBad(o, ls, col) {
	let n = col, prev = -1;
	for (let i = 0; i < o.length; i++) {
		const c = o[i];
		if (c === 13) { if (o[i + 1] !== 10 || (n !== ls && n !== ls + 1) || prev === 9 || prev === 32 || i + 2 >= o.length) return i; i++; n = 0; prev = -1; continue; }
		if (n >= ls) return i;
		if (c === 0 || c === 10) return i;
		if (n === 0 && (c === 9 || c === 32 || c === 46)) return i;
		if (c === 61) { i++; if (i >= o.length) return i - 1; const d = o[i]; if (CRIT[d] || d === 9 || d === 32 || d === 46) return i; n += 2; prev = d; continue; }
		n++; prev = c;
	}
	return n >= 1 && n <= ls + 1 && prev !== 9 && prev !== 32 ? -1 : Math.max(0, o.length - 1);
}
function stuff(e) { // NNTP dot-stuffing by the sending side
	const o = Buffer.allocUnsafe(e.length * 2 + 1); let p = 0;
	for (let i = 0; i < e.length; i++) { if (e[i] === 46 && (i === 0 || (i >= 2 && e[i - 1] === 10 && e[i - 2] === 13))) o[p++] = 46; o[p++] = e[i]; }
	return o.subarray(0, p);
}
// the same machines one byte at a time, keeping no output
function encStepper(ls, col) {
	if (ls === 0) ls = T.deflinesize;
	if (col === ls) col = 0;
	let pos = 0;
	return { pos: () => pos, col: () => col, step(b, final) {
		if (col >= ls) { pos += BRK.length; col = 0; }
		const w = encT[(col === 0 ? 1 : 0) | (col === ls - 1 ? 2 : 0) | (final ? 4 : 0)][b] & 0x10000 ? 2 : 1;
		pos += w; col += w;
	} };
}
function decStepper(mode, st) {
	const m = MODE[mode]; if (st === undefined) st = T.start[m];
	let pos = 0, end = 0;
	return { pos: () => pos, st: () => st, end: () => end, step(b) { const k = st * 256 + b; if (decO[m][k] >= 0) pos++; st = decS[m][k]; end = decE[m][k]; } };
}
const crcTab = new Uint32Array(256); T.crc.forEach((v, i) => { crcTab[i] = (v[0] * 65536 + v[1]) >>> 0; });
function crcRef(data, crc) {
	let c = ~(crc || 0);
	for (let i = 0; i < data.length; i++) c = crcTab[(c ^ data[i]) & 255] ^ (c >>> 8);
	return (~c) >>> 0;
}
const STATESTR = T.statestr.map(s => Buffer.from(s).toString('latin1'));
const ENDSTR = T.endstr.map(s => Buffer.from(s).toString('latin1'));
const B = b => Array.from(b);                                 // bytes for events
const S = s => Array.from(Buffer.from(s, 'latin1'));           // strings as bytes

// ---------------------------------------------------------------- recording
const rec = { evaluations: 0, distinct: 0, mismatches: [], mismatchCount: 0, samples: [], sampleBytes: 0, counters: {} };
const SAMPLE_BUDGET = P.sampleBytes || 3000, MAX_MISMATCH = P.maxMismatch || 6;
function size(e) { let s = 0; for (const k in e) if (Array.isArray(e[k])) s += JSON.stringify(e[k]).length / 3 | 0; return s; }
let sampleGate = 0;
function sample(mk) { // called for matching executions; keeps a spread-out selection within the budget
	if (rec.sampleBytes >= SAMPLE_BUDGET) return;
	const e = mk(), s = size(e);
	if (s > SAMPLE_BUDGET - rec.sampleBytes) return;
	rec.sampleBytes += s + 4; rec.samples.push(e);
}
// keep: sample only when the running evaluation count hits a growing threshold, so that samples are spread over the job
function due() { if (rec.evaluations >= sampleGate) { sampleGate = Math.ceil(sampleGate * (P.sampleGrow || 1.25)) + (P.sampleStep || 37); return true; } return false; }
class Enough extends Error {}
function mismatch(e) {
	rec.mismatchCount++;
	if (rec.mismatches.length < MAX_MISMATCH) rec.mismatches.push(e);
	if (rec.mismatchCount >= 200) throw new Enough();
}
function count(k, n) { rec.counters[k] = (rec.counters[k] || 0) + (n === undefined ? 1 : n); }
let logfd = P.calllog ? fs.openSync(P.calllog, 'w') : -1;
function calling(mk) { // in the re-run after a crash: note each call before making it
	if (logfd >= 0) { const s = Buffer.from(JSON.stringify(mk()) + '\n'); fs.writeSync(logfd, s, 0, s.length, 0); }
}
function finish() {
	rec.level = P.level; rec.job = P.job; rec.ms = Date.now() - t0;
	if (cross) rec.cross = cross;
	fs.writeFileSync(P.out, JSON.stringify(rec));
}
function failed(e) {
	if (e instanceof Enough) return;
	console.error(e && e.stack);
	if (!e || e instanceof ReferenceError && String(e.stack).indexOf(P.pkg) < 0 || /allocation failed/i.test(e.message)) process.exit(3); // the machinery's own fault
	rec.uncaught = { op: 'uncaught', message: String(e.message), stack: String(e.stack).slice(0, 1500) };
}
function main(jobs) {
	let r;
	if (cross && cross.refused) { count('processors this emulator lacks'); console.error(cross.refused); finish(); return; }
	try { r = jobs[P.job](); } catch (e) { failed(e); }
	if (r && r.then) r.then(() => 0, failed).then(() => { finish(); process.exit(0); });
	else finish();
}
// shrink a byte string while `bad` still holds (a few hundred trials)
function shrink(data, bad) {
	let d = Buffer.from(data), trials = 0;
	for (let step = d.length >> 1; step >= 1; step >>= 1) {
		for (let i = 0; i + step <= d.length && trials < 600;) {
			const c = Buffer.concat([d.subarray(0, i), d.subarray(i + step)]);
			trials++;
			let b = false; try { b = c.length > 0 && bad(c); } catch (e) { b = false; }
			if (b) d = c; else i += step;
		}
	}
	return d;
}

// ---------------------------------------------------------------- data generators
// unencoded bytes whose encoded form matters
const ESPECIAL = [214, 224, 227, 19, 223, 246, 4];
function genEncData(g, n, out) {
	const kind = g.n(8);
	if (kind === 0) for (let i = 0; i < n; i++) out[i] = g.u();
	else if (kind <= 4) {
		const pr = g.pick([1 / 128, 1 / 40, 1 / 16, 1 / 6, 1 / 3, 0.7, 1]), base = g.r(30, 180), sp = g.p(0.3) ? [g.pick(ESPECIAL), g.pick(ESPECIAL)] : ESPECIAL;
		for (let i = 0; i < n; i++) out[i] = g.p(pr) ? g.pick(sp) : (kind === 1 ? base : base + (i % 13));
	} else if (kind === 5) { out.fill(g.pick(ESPECIAL), 0, n); }
	else if (kind === 6) { // one or two specials in plain text
		for (let i = 0; i < n; i++) out[i] = 40 + (i % 50);
		for (let k = g.r(1, 3); k > 0 && n; k--) out[g.n(n)] = g.pick(ESPECIAL);
	} else { // runs
		let i = 0; while (i < n) { const l = g.r(1, 40), c = g.p(0.5) ? g.pick(ESPECIAL) : g.n(256); for (let k = 0; k < l && i < n; k++) out[i++] = c; }
	}
}
const DTOK = ['=', '==', '=y', '\r\n', '\r\n.', '\r\n..', '\r\n.=', '\r\n=', '\r', '\n', '.', 'y', '=\r\n.', '=\r\n', '\r\n.\r', '\r\r\n', '\r\n\r\n', '\r\n.\r.', '=\n', '\n.', '\r.', '...', '====', '\r\n==', '\r\n.=\r\n'].map(s => Buffer.from(s));
const DEND = ['\r\n=y', '\r\n.=y', '\r\n.\r\n'].map(s => Buffer.from(s));
const DALPHA = Buffer.from('\r\n.=yA\r\n.=\0\xff', 'latin1');
// withEnd: probability weight of terminators
function genDecData(g, n, out, withEnd) {
	const kind = g.n(7);
	if (kind === 0) { for (let i = 0; i < n; i++) out[i] = g.u(); }
	else if (kind === 1) { for (let i = 0; i < n; i++) out[i] = DALPHA[g.n(DALPHA.length)]; }
	else if (kind === 2) { const pr = g.pick([1 / 100, 1 / 30, 1 / 10, 1 / 3]); for (let i = 0; i < n; i++) out[i] = g.p(pr) ? DALPHA[g.n(5)] : 65 + (i % 20); }
	else if (kind === 3) { const c = g.pick([61, 46, 13, 10]), pr = g.pick([0.5, 0.9, 0.98, 1]); for (let i = 0; i < n; i++) out[i] = g.p(pr) ? c : DALPHA[g.n(DALPHA.length)]; }
	else {
		const maxrun = g.pick([3, 12, 40, 90]); let i = 0;
		while (i < n) {
			for (let l = g.n(maxrun); l > 0 && i < n; l--) out[i++] = kind === 4 ? g.u() : 65 + (l % 26);
			const t = g.p(withEnd || 0) ? g.pick(DEND) : g.pick(DTOK);
			for (let k = 0; k < t.length && i < n; k++) out[i++] = t[k];
		}
	}
	if (!withEnd && false) out[0] = out[0];
}
// a view of n bytes at a given offset from a 64-byte boundary (relative to the pool's own alignment, which is at least 8)
const POOLSZ = 1 << 21;
const pool = [Buffer.allocUnsafeSlow(POOLSZ), Buffer.allocUnsafeSlow(POOLSZ), Buffer.allocUnsafeSlow(POOLSZ)];
function view(which, n, align) { if (n + align <= POOLSZ) return pool[which].subarray(align, align + n); return Buffer.allocUnsafeSlow(n + align).subarray(align); }
function lenOf(g) { const k = g.n(20); return k < 9 ? g.r(1, 300) : k < 14 ? g.r(120, 800) : k < 18 ? g.r(1, 80) : k < 19 ? g.r(800, 3000) : g.r(3000, 20000); }

// the library, loaded as an old Node would (P.legacy): Buffers that cannot search, or with neither subarray views nor Buffer.from
function load() {
	if (!P.legacy) return require(P.pkg + '/index.js');
	const pr = Buffer.prototype, keep = ['indexOf', 'lastIndexOf', 'readBigInt64BE'].map(k => [k, Object.getOwnPropertyDescriptor(pr, k)]), alloc = Buffer.alloc;
	for (const [k, d] of keep) if (d) { delete pr[k]; if (k in pr) Object.defineProperty(pr, k, { value: undefined, configurable: true, writable: true }); }
	if (P.legacy > 1) Buffer.alloc = undefined;
	try { return require(P.pkg + '/index.js'); } catch (e) { /* needs a newer Node: loaded as such below */ }
	finally { Buffer.alloc = alloc; for (const [k, d] of keep) if (d) Object.defineProperty(pr, k, d); }
	return require(P.pkg + '/index.js');
}
module.exports = { P, T, y: load(), Rng, encodeRef, decodeRef, crcRef, encStepper, decStepper, transportBad, stuff, STATESTR, ENDSTR, B, S, rec, cross, sample, due, mismatch, count, calling, main, shrink,
	genEncData, genDecData, view, lenOf, pool, ESPECIAL, DTOK, DEND, DALPHA, Enough, fs };
