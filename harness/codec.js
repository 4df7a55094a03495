'use strict';
// Encoding, decoding and round-trip executions of the real library (C01-C04, and reused by C19).
const C = require('./common.js');
const { P, T, y, Rng, encodeRef, decodeRef, B, rec, sample, due, mismatch, count, calling, main, shrink, genEncData, genDecData, view, lenOf, ESPECIAL, DTOK, DEND, stuff, transportBad } = C;
const transportOk = (o, ls, col) => transportBad(o, ls, col) < 0;
const N = P.n || 1;

const ECRIT = [214, 224, 227, 19];   // become NUL, LF, CR and =
const LSMALL = [1, 2, 3, 4, 5, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 47, 48, 49, 62, 63, 64, 65, 66, 70, 80, 96, 100, 126, 127, 128, 129, 130, 160, 200, 254, 255, 256, 257, 300, 997, 998];
function lsOf(g) { const k = g.n(12); return k < 3 ? 128 : k < 8 ? g.pick(LSMALL) : k < 10 ? g.r(12, 300) : k < 11 ? g.r(1, 20) : g.p(0.3) ? g.pick([0, 1000, 4096, 65535, 1000000, 1 << 30, 2147483647, 2147483646]) : anyLs(g); }
// any size of line, spread over magnitudes, or near a power of two
function anyLs(g) { const v = g.p(0.4) ? Math.pow(2, g.r(1, 31)) + g.r(-3, 3) : Math.pow(2, g.u() / 4294967296 * 31); return Math.max(1, Math.min(2147483647, Math.floor(v))); }
function colOf(g, ls) { const L = ls || 128, k = g.n(8); return k < 4 ? 0 : k < 5 ? L : k < 6 ? L - 1 : k < 7 ? Math.max(0, L - g.pick([2, 3, g.n(300), g.n(3000)])) : g.n(Math.min(L, 70000) + 1); }

function callEncode(data, ls, col, via, g) {
	if (via === 'encode') return y.encode(data, ls, col);
	if (via === 'encode1') return y.encode(data);
	if (via === 'encode2') return y.encode(data, ls);
	const o = view(1, y.maxSize(data.length, ls), g ? g.n(64) : 0);
	const r = via === 'encodeTo2' ? y.encodeTo(data, o) : y.encodeTo(data, o, ls, col);
	if (!Number.isInteger(r) || r < 0 || r > o.length) return Buffer.from('bad return value ' + r);
	return o.subarray(0, r);
}
function encEvent(data, ls, col, via, out) { return { op: 'encode', via, ls, col, data: B(data), out: B(out) }; }
function checkEnc(g, data, ls, col, via) {
	rec.evaluations++;
	if (via === 'encode1' || via === 'encodeTo2') { ls = 128; col = 0; } else if (via === 'encode2') col = 0;
	calling(() => ({ op: 'encode', via, ls, col, data: B(data) }));
	let out; try { out = callEncode(data, ls, col, via, g); } catch (e) { out = Buffer.from('threw: ' + e.message); }
	const exp = encodeRef(data, ls, col);
	if (Buffer.compare(out, exp) !== 0) {
		out = Buffer.from(out);
		if (rec.mismatches.length < 6 && data.length > 60) {
			const d = shrink(data, d => { const v = view(0, d.length, 0); return Buffer.compare(callEncode(d, ls, col, via), encodeRef(d, ls, col)) !== 0; });
			let o2; try { o2 = callEncode(d, ls, col, via); } catch (e) { o2 = Buffer.from('threw'); }
			if (Buffer.compare(o2, encodeRef(d, ls, col)) !== 0) { mismatch(encEvent(d, ls, col, via, o2)); return; }
		}
		mismatch(encEvent(data, ls, col, via, out));
	} else if (due()) sample(() => encEvent(data, ls, col, via, out));
}

const jobs = {
	// random structured inputs
	encRandom() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const n = lenOf(g), d = view(0, n, g.n(64));
			genEncData(g, n, d);
			const ls = lsOf(g);
			checkEnc(g, d, ls, colOf(g, ls), g.pick(['encode', 'encode', 'encodeTo', 'encodeTo', 'encode1', 'encode2', 'encodeTo2']));
		}
	},
	// the longest lines there are, started short of their end
	encMax() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const n = g.p(0.8) ? g.r(1, 400) : lenOf(g), d = view(0, n, g.n(64)), ls = 2147483647 - (g.p(0.8) ? g.n(24) : g.n(5000));
			genEncData(g, n, d);
			checkEnc(g, d, ls, Math.max(0, ls - g.n(g.pick([4, 40, 300, 2 * n + 2]))), g.pick(['encode', 'encodeTo']));
		}
	},
	// one or two special bytes at every position relative to line ends and vector blocks
	// line sizes and columns beyond those of 32 bits
	encVast() {
		const g = new Rng(P.seed), big = () => g.pick([2147483647, 2147483648, 4294967295, 4294967296, 4294967296 + g.n(300), 8589934592 + g.n(300), 2147483648 + g.u(), Number.MAX_SAFE_INTEGER, Infinity, 1e20, Math.pow(2, g.r(31, 80))]);
		const digits = v => v === Infinity ? [] : BigInt(v).toString().split('').map(Number), clamp = v => Math.min(v, 2147483647);
		for (let k = 0; k < N; k++) {
			const n = g.p(0.8) ? g.r(1, 400) : lenOf(g), d = view(0, n, g.n(64)), ls = big(), col = g.pick([0, 0, 1, g.n(1000), 2147483647 - g.n(300), ls]), via = g.pick(['encode', 'encodeTo', 'encode2']);
			genEncData(g, n, d); rec.evaluations++;
			const c = via === 'encode2' ? 0 : col, e = { op: 'encodeVast', via, ls: digits(ls), col: digits(c), data: B(d) }, exp = encodeRef(d, clamp(ls), clamp(c));
			calling(() => e);
			let out; try { out = callEncode(d, ls, c, via, g); } catch (x) { e.failed = String(x.message); mismatch(e); continue; }
			e.out = B(out); if (Buffer.compare(out, exp)) mismatch(e); else if (due()) sample(() => e);
		}
	},
	encSlide() {
		const g = new Rng(P.seed);
		const sizes = P.sizes || [12, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129];
		for (const ls of sizes) {
			const n = Math.max(2 * ls + 70, 200 + g.n(30));
			const d = view(0, n, g.n(64));
			for (let i = 0; i < n; i++) d[i] = 60 + (i % 90);
			for (const e of ESPECIAL) {
				for (let p = 0; p < n; p++) {
					const s = d[p]; d[p] = e;
					checkEnc(g, d, ls, 0, 'encodeTo');
					if (p + 2 < n && (p % ls >= ls - 4 || p % ls <= 1 || p >= n - 4)) {
						for (let q = 1; q <= 2; q++) { const s2 = d[p + q]; d[p + q] = g.pick(ESPECIAL); checkEnc(g, d, ls, 0, 'encode'); d[p + q] = s2; }
						checkEnc(g, d, ls, colOf(g, ls), 'encode');
					}
					d[p] = s;
				}
			}
		}
	},
	// every byte value in every place around a line end: a full byte x position sweep
	encBytes() {
		const g = new Rng(P.seed);
		for (const ls of P.sizes || [16, 64, 128]) {
			const n = Math.max(200, 2 * ls + 20), d = view(0, n, g.n(64));
			for (let i = 0; i < n; i++) d[i] = 60 + (i % 90);
			const pos = [0, 1, 2, ls - 3, ls - 2, ls - 1, ls, ls + 1, ls + 2, 2 * ls - 2, 2 * ls - 1, 2 * ls, 2 * ls + 1, n - 2, n - 1];
			for (const p of pos) if (p >= 0 && p < n) for (let b = 0; b < 256; b++) { const s = d[p]; d[p] = b; checkEnc(g, d, ls, 0, 'encode'); d[p] = s; }
		}
	},
	// every length from 0, several line sizes
	encLengths() {
		const g = new Rng(P.seed);
		for (let n = 1; n <= (P.maxLen || 600); n++) for (let k = 0; k < (P.per || 8); k++) {
			const d = view(0, n, g.n(64)); genEncData(g, n, d);
			const ls = lsOf(g); checkEnc(g, d, ls, colOf(g, ls), g.pick(['encode', 'encodeTo']));
		}
	},
	// every pattern of 16 neighbouring bytes to escape or not, at several distances from the start and the end
	encMasks() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const s = k < 2 ? [1, 17][k] : g.n(64), n = s + 16 * 65536 + g.n(64), d = view(0, n, g.n(64)), mul = g.u() | 1, add = g.u();
			for (let i = 0; i < n; i++) d[i] = 60 + (g.u() & 63);
			for (let v = 0; v < 65536; v++) { const m = (Math.imul(v, mul) + add) & 65535; for (let j = 0; j < 16; j++) if (m >> j & 1) d[s + v * 16 + j] = ECRIT[g.u() & 3]; }
			checkEnc(g, d, g.pick([3000000, 1 << 30]), 0, 'encodeTo');
		}
	},
	// every window of the block model (MCEncBlocks): all strings over the four kinds of bytes, laid across the end of a line at every
	// offset (part: of a longer stream, from any column; else: right at the start of the call, from the column that goes with it)
	encWindows() {
		const g = new Rng(P.seed), L = P.L || 6, tot = Math.pow(4, L), of = P.of || 1, ord = () => 60 + g.n(90);
		const kinds = [() => g.pick(ECRIT), () => g.pick([223, 246]), () => 4, ord];
		for (let rep = 0; rep < N; rep++) for (let v = P.part || 0; v < tot; v += of) {
			const ls = g.p(0.4) ? g.pick([128, 64, 127, 129, 96, 33, 256]) : g.p(0.8) ? g.r(12, 70) : g.r(1, 300);
			const room = g.r(0, L + 1), entry = g.p(0.35), n = g.r(entry ? L : ls, ls + 260) + L, d = view(0, n, g.n(64));
			for (let i = 0; i < n; i++) d[i] = ord();
			let p = 0, col = 0;
			if (entry) col = ls - room;
			else { col = g.p(0.6) ? 0 : g.n(Math.min(ls, 40)); p = ls - col - room + (g.p(0.3) ? ls : 0); }
			if (p < 0 || p + L > n || col < 0) { p = 0; col = 0; }
			if (g.p(0.2)) p = n - L;
			let x = v; for (let j = 0; j < L; j++) { d[p + j] = kinds[x & 3](); x >>= 2; }
			checkEnc(g, d, ls, col, (v & 1) ? 'encode' : 'encodeTo');
		}
	},
	// long inputs
	encLong() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const n = g.r(100000, 1500000), d = view(0, n, g.n(64)); genEncData(g, n, d);
			const ls = lsOf(g); checkEnc(g, d, ls, colOf(g, ls), g.pick(['encode', 'encodeTo']));
		}
	},

	decRandom() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) { const n = lenOf(g), d = view(0, n, g.n(64)); genDecData(g, n, d, g.p(0.3) ? 0.1 : 0); checkDec(g, d, g.p(0.5), g.pick(DVIA)); }
	},
	decSlide() {
		const g = new Rng(P.seed);
		for (const tok of DTOK.concat(DEND)) for (let align = 0; align < 64; align += P.alignStep || 7) {
			const n = 260, d = view(0, n, align);
			for (let p = 0; p + tok.length <= n; p++) {
				for (let i = 0; i < n; i++) d[i] = 65 + (i % 40) + (i % 40 > 20 ? 40 : 0);
				tok.copy(d, p);
				checkDec(g, d, true, 'decode'); checkDec(g, d, false, 'decodeTo');
				const t2 = g.pick(DTOK), q = Math.min(n - t2.length, p + tok.length + g.n(3)); t2.copy(d, q);
				checkDec(g, d, true, 'insitu'); if (p % 3 === 0) checkDec(g, d, false, 'insitu');
			}
		}
	},
	decLengths() {
		const g = new Rng(P.seed);
		for (let n = 1; n <= (P.maxLen || 600); n++) for (let k = 0; k < (P.per || 12); k++) { const d = view(0, n, g.n(64)); genDecData(g, n, d, 0); checkDec(g, d, g.p(0.5), g.pick(DVIA)); }
	},
	decLong() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) { const n = g.r(50000, 1000000), d = view(0, n, g.n(64)); genDecData(g, n, d, 0); checkDec(g, d, g.p(0.5), g.pick(DVIA)); }
	},
	// all strings over a small alphabet around the SIMD entry threshold
	// every pattern of 16 neighbouring bytes to drop or keep, at several alignments: line breaks, CRs and LFs mixed, or escape characters
	decMasks() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const s = g.n(64), n = s + 16 * 65536 + g.n(64), d = view(0, n, g.n(64)), mul = g.u() | 1, add = g.u(), kind = k % 4;
			for (let i = 0; i < n; i++) d[i] = 65 + (g.u() & 127);
			for (let v = 0; v < 65536; v++) {
				const m = (Math.imul(v, mul) + add) & 65535;
				for (let j = 0; j < 16; j++) if (m >> j & 1) d[s + v * 16 + j] = kind === 0 ? 61 : kind === 1 ? (j & 1 ? 10 : 13) : kind === 2 ? 10 + 3 * (g.u() & 1) : g.pick([13, 10, 61]);
			}
			checkDec(g, d, g.p(0.5), g.pick(DVIA));
		}
	},
	decTails() {
		const g = new Rng(P.seed), A = [13, 10, 46, 61, 121, 65];
		for (let base = P.from || 0; base <= (P.to || 0); base++) {
			const L = 5, tot = Math.pow(A.length, L), align = g.n(64), d = view(0, base + L, align), front = g.p(0.3);
			for (let i = 0; i < base + L; i++) d[i] = 70 + (i % 30);
			for (let v = 0; v < tot; v++) { let x = v; for (let j = 0; j < L; j++) { d[(front ? 0 : base) + j] = A[x % 6]; x = Math.floor(x / 6); } checkDec(g, d, (v & 1) === 0 || true, 'decode'); if ((v % 5) === 0) checkDec(g, d, false, 'decode'); }
		}
	},

	// every window of the block model (MCBlocks), laid across a block boundary at every offset, or across the place where the blocks end
	decWindows() {
		const g = new Rng(P.seed), A = [13, 10, 46, 61, 121, 65], L = P.L || 6, tot = Math.pow(6, L), of = P.of || 1;
		for (let rep = 0; rep < N; rep++) for (let v = P.part || 0; v < tot; v += of) {
			const n = g.r(140, 290), align = g.p(0.6) ? 0 : g.n(64), d = view(0, n, align);
			const edge = g.p(0.7) ? 64 * g.r(1, 3) - align + (g.p(0.3) ? 16 * g.r(1, 3) : 0) : n - g.r(0, 70), p = Math.max(0, Math.min(n - L, edge - g.n(L + 1)));
			for (let i = 0; i < n; i++) d[i] = 66 + (i % 30);
			if (g.p(0.2)) d[g.n(n)] = g.pick(A);
			let x = v; for (let j = 0; j < L; j++) { d[p + j] = A[x % 6]; x = Math.floor(x / 6); }
			checkDec(g, d, (v & 3) !== 0, g.pick(DVIA));
		}
		// the inputs that tell the specified block design from one with a part left out, everywhere
		for (const w of Object.values(T.witness)) for (let p = 0; p < 200; p++) for (let rep = 0; rep < 3; rep++) {
			const n = p + w.s.length + g.n(150), d = view(0, n, rep ? g.n(64) : 0);
			for (let i = 0; i < n; i++) d[i] = 66 + (i % 30);
			Buffer.from(w.s).copy(d, p); checkDec(g, d, rep !== 1, 'decode');
		}
	},

	// C02: outputs only, judged by the transport monitor in TLC; the JS monitor is a filter
	transport() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const n = lenOf(g), d = view(0, n, g.n(64)); genEncData(g, n, d);
			const ls = lsOf(g), col = colOf(g, ls), via = g.pick(['encode', 'encodeTo']);
			checkTransport(g, d, ls, col, via);
		}
		for (const ls of P.sizes || [1, 2, 3, 12, 16, 33, 64, 128]) {
			const n = Math.max(2 * ls + 10, 180), d = view(0, n, g.n(64));
			for (let i = 0; i < n; i++) d[i] = 60 + (i % 90);
			for (const e of ESPECIAL) for (let p = 0; p < n; p++) {
				const s = d[p], q = p + g.r(1, 3), s2 = d[q]; d[p] = e; checkTransport(g, d, ls, 0, 'encode');
				if (q < n) { d[q] = g.pick(ESPECIAL); checkTransport(g, d, ls, g.p(0.5) ? 0 : colOf(g, ls), 'encode'); d[q] = s2; }
				d[p] = s;
				if (p % 2) { checkTransport(g, d.subarray(0, p + 1), ls, 0, 'encode'); const z = d[p]; d[p] = e; checkTransport(g, d.subarray(0, p + 1), ls, 0, 'encode'); d[p] = z; }
			}
		}
	},

	roundtrip() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const n = lenOf(g), d = view(0, n, g.n(64)); genEncData(g, n, d);
			const ls = lsOf(g); checkRT(g, d, ls, colOf(g, ls));
		}
		for (let n = 1; n < (P.maxLen || 400); n++) for (let k = 0; k < (P.per || 6); k++) { const d = view(0, n, g.n(64)); genEncData(g, n, d); const ls = lsOf(g); checkRT(g, d, ls, colOf(g, ls)); }
		for (const ls of [16, 33, 64, 128]) {
			const n = 2 * ls + 150, d = view(0, n, g.n(64));
			for (let i = 0; i < n; i++) d[i] = 60 + (i % 90);
			for (const e of ESPECIAL) for (let p = 0; p < n; p++) { const s = d[p]; d[p] = e; const s2 = d[p + 1 < n ? p + 1 : 0]; if (g.p(0.5)) d[p + 1 < n ? p + 1 : 0] = g.pick(ESPECIAL); checkRT(g, d, ls, 0); d[p] = s; if (p + 1 < n) d[p + 1] = s2; else d[0] = s2; }
		}
	},
	// produce encodings to be decoded under another level / decode encodings produced by another level
	produce() {
		const g = new Rng(P.seed), res = [];
		for (let k = 0; k < N; k++) { const n = lenOf(g), d = view(0, n, g.n(64)); genEncData(g, n, d); const ls = lsOf(g), col = colOf(g, ls); res.push([ls, col, d.toString('base64'), y.encode(d, ls, col).toString('base64')]); }
		C.fs.writeFileSync(P.exchange, JSON.stringify(res));
	},
	consume() {
		const g = new Rng(P.seed);
		for (const [ls, col, d64, e64] of JSON.parse(C.fs.readFileSync(P.exchange, 'utf8'))) {
			const d = Buffer.from(d64, 'base64'), e = Buffer.from(e64, 'base64');
			checkRT(g, d, ls, col, e);
		}
	},
};

// ---------------------------------------------------------------- decode
const DVIA = ['decode', 'decode', 'decodeTo', 'insitu', 'decode1'];
function callDecode(data, strip, via, g) {
	if (via === 'decode') return y.decode(data, strip);
	if (via === 'decode1') return y.decode(data);
	if (via === 'decodeTo') {
		const o = view(1, data.length + (g ? g.n(3) : 0), g ? g.n(64) : 0), r = y.decodeTo(data, o, strip);
		if (!Number.isInteger(r) || r < 0 || r > o.length) return Buffer.from('bad return value ' + r);
		return o.subarray(0, r);
	}
	const c = view(2, data.length, g ? (data.byteOffset & 63) : 0); data.copy(c);
	const r = y.decodeTo(c, c, strip);
	if (!Number.isInteger(r) || r < 0 || r > c.length) return Buffer.from('bad return value ' + r);
	return c.subarray(0, r);
}
function decEvent(data, strip, via, out, align) { return { op: 'decode', via, mode: strip ? 'raw' : 'plain', data: B(data), out: B(out), align }; }
function checkDec(g, data, strip, via) {
	rec.evaluations++;
	if (via === 'decode1') strip = false;
	const align = data.byteOffset & 63;
	calling(() => ({ op: 'decode', via, mode: strip ? 'raw' : 'plain', data: B(data), align }));
	let out; try { out = callDecode(data, strip, via, g); } catch (e) { out = Buffer.from('threw: ' + e.message); }
	const exp = decodeRef(strip ? 'raw' : 'plain', data).o;
	if (Buffer.compare(out, exp) !== 0) {
		out = Buffer.from(out);
		const orig = Buffer.from(data);
		if (rec.mismatches.length < 6 && data.length > 60) {
			const al = d => { const v = view(0, d.length, align); d.copy(v); return v; };
			const d = shrink(orig, d => Buffer.compare(callDecode(al(d), strip, via), decodeRef(strip ? 'raw' : 'plain', d).o) !== 0);
			let o2; try { o2 = Buffer.from(callDecode(al(d), strip, via)); } catch (e) { o2 = Buffer.from('threw'); }
			orig.copy(data);
			if (Buffer.compare(o2, decodeRef(strip ? 'raw' : 'plain', d).o) !== 0) { mismatch(decEvent(d, strip, via, o2, align)); return; }
		}
		mismatch(decEvent(orig, strip, via, out, align));
	} else if (due()) sample(() => decEvent(data, strip, via, out, align));
}

// ---------------------------------------------------------------- transport
function checkTransport(g, data, ls, col, via) {
	rec.evaluations++;
	calling(() => ({ op: 'transport', via, ls, col, data: B(data) }));
	let out; try { out = Buffer.from(callEncode(data, ls, col, via, g)); } catch (e) { out = Buffer.from([0]); }
	const L = ls || 128, c0 = col === L ? 0 : col;
	const ev = (d, o) => ({ op: 'transport', via, ls: L, col: c0, data: B(d), out: B(o) });
	if (!transportOk(out, L, c0)) {
		const d = data.length > 60 && out[0] !== 0 ? shrink(data, d => !transportOk(callEncode(d, ls, col, via), L, c0)) : Buffer.from(data);
		let o2; try { o2 = callEncode(d, ls, col, via); } catch (e) { o2 = out; }
		if (transportOk(o2, L, c0)) mismatch(ev(data, out)); else mismatch(ev(d, o2));
	} else if (due()) sample(() => ev(data, out));
}

// ---------------------------------------------------------------- round trip
function rt(data, ls, col, how, cuts, enc) { // returns what comes back
	const e = enc || y.encode(data, ls, col);
	switch (how) {
		case 'plain': return y.decode(e);
		case 'plainTo': { const o = Buffer.alloc(e.length); return o.subarray(0, y.decodeTo(e, o)); }
		case 'insitu': { const c = Buffer.from(e); return c.subarray(0, y.decodeTo(c, c)); }
		case 'raw': return y.decode(stuff(e), true);
		case 'rawInsitu': { const c = stuff(e); return c.subarray(0, y.decodeTo(c, c, true)); }
		case 'chunk': {
			const s = stuff(e), parts = []; let st = null, p = 0, i = 0;
			while (p < s.length) {
				const l = cuts[i++ % cuts.length], c = s.subarray(p, p + l), r = y.decodeChunk(c, st);
				if (r.ended || r.read !== c.length) return Buffer.from('ended early at ' + p);
				parts.push(r.output); st = r.state; p += l;
			}
			return Buffer.concat(parts);
		}
	}
}
const HOW = ['plain', 'raw', 'chunk', 'insitu', 'rawInsitu', 'plainTo', 'chunk'];
function checkRT(g, data, ls, col, enc) {
	const how = g.pick(HOW), cuts = g.p(0.5) ? [g.r(1, 70)] : [g.r(1, 9), g.r(50, 200), g.r(1, 3), g.r(130, 700)];
	rec.evaluations++;
	const pre = { op: 'roundtrip', how, ls, col, cuts };
	calling(() => Object.assign({ data: B(data) }, pre));
	const run = d => { try { return rt(d, ls, col, how, cuts); } catch (e) { return Buffer.from('threw ' + e.message); } };
	let back; try { back = rt(data, ls, col, how, cuts, enc); } catch (e) { back = Buffer.from('threw ' + e.message); }
	if (Buffer.compare(back, data) !== 0) {
		if (!enc && data.length > 60) { const d = shrink(data, d => Buffer.compare(run(d), d) !== 0), b2 = run(d); if (Buffer.compare(b2, d) !== 0) return mismatch(Object.assign({ data: B(d), enc: B(y.encode(d, ls, col)), back: B(b2) }, pre)); }
		mismatch(Object.assign({ data: B(data), enc: B(enc || y.encode(data, ls, col)), back: B(back) }, pre));
	} else if (due()) sample(() => Object.assign({ data: B(data), enc: B(enc || y.encode(data, ls, col)), back: B(back) }, pre));
}
main(jobs);
