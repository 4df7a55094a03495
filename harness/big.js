'use strict';
// Large and huge executions (C01-C06, C08): megabytes with everything compared, and beyond 2 and 4 GiB with periodic contents,
// whose results are periodic too, so that everything written can still be compared.  A deviation is reported as the window around it.
const C = require('./common.js');
const { P, T, y, Rng, encodeRef, decodeRef, crcRef, STATESTR, ENDSTR, B, S, rec, sample, due, mismatch, count, calling, main, genEncData, genDecData, encStepper, decStepper } = C;
const { pair, mul, xpow, limbs, num, u32 } = require('./calllib.js');
const N = P.n || 1, LO = P.lo || 65536, HI = P.hi || 24 << 20, WIN = 40;
const logSize = g => Math.floor(LO * Math.pow(HI / LO, g.u() / 4294967296)) + g.n(3);
const alloc = (n, a) => Buffer.allocUnsafeSlow(n + a).subarray(a, a + n);
const tile = (d, from) => { const max = from * Math.max(1, Math.floor((1 << 28) / from)); for (let p = from; p < d.length;) { const l = Math.min(p, d.length - p, max); d.copy(d, p, 0, l); p += l; } };
// data of n bytes: a few segments of generated data, repeated with a period unrelated to anything
function big(g, n, gen, fix) { const d = alloc(n, g.n(64)), blk = Math.min(n, g.pick([30011, 65537, 100003, 250007])); for (let p = 0; p < blk;) { const l = Math.min(blk - p, g.r(1000, 60000)); gen(g, l, d.subarray(p, p + l), 0); p += l; } if (fix) fix(d.subarray(0, blk)); tile(d, blk); return d; }
function firstDiff(a, b) { // a, b of any length: the first position where they differ
	const n = Math.min(a.length, b.length), STEP = 1 << 20;
	for (let p = 0; p < n; p += STEP) { const q = Math.min(n, p + STEP), x = a.subarray(p, q), z = b.subarray(p, q); if (Buffer.compare(x, z)) for (let i = p; ; i++) if (a[i] !== b[i]) return i; }
	return n;
}
// ---- windows, by running the specification's machine up to just before the deviation
function encWindow(data, ls, col, out, at, via, extra) {
	const m = encStepper(ls, col), n = data.length; let i = 0, w = { i: 0, p: 0, col: m.col() };
	const ring = []; for (; i < n && m.pos() <= at; i++) { ring.push({ i, p: m.pos(), col: m.col() }); if (ring.length > WIN) ring.shift(); m.step(data[i], i === n - 1); }
	if (ring.length) w = ring[0];
	let e = Math.min(n, i + WIN); for (; i < e; i++) m.step(data[i], i === n - 1);
	const last = e === n; return Object.assign({ op: 'encodeWindow', via, ls, col: w.col, at: w.i, size: n, last, data: B(data.subarray(w.i, e)), out: B(last ? out.subarray(w.p, m.pos() + 200) : out.subarray(w.p, m.pos())) }, extra);
}
function decWindow(mode, data, out, at, st, extra) {
	const m = decStepper(mode, st), n = data.length; let i = 0, w = { i: 0, p: 0, st: m.st() };
	const ring = []; for (; i < n && m.pos() <= at && !m.end(); i++) { ring.push({ i, p: m.pos(), st: m.st() }); if (ring.length > WIN) ring.shift(); m.step(data[i]); }
	if (ring.length) w = ring[0];
	let e = i; for (; e < n && e < i + WIN && !m.end(); e++) m.step(data[e]);
	const last = e === n || m.end() !== 0; return Object.assign({ op: 'decodeWindow', mode, st: S(STATESTR[w.st]), at: w.i, size: n, last, data: B(data.subarray(w.i, e)), out: B(last ? out.subarray(w.p, m.pos() + 200) : out.subarray(w.p, m.pos())) }, extra);
}
// no end of the data in the block, nor where it meets itself (from any state)
function noEnds(b) {
	for (let i = 0; i < Math.min(6, b.length); i++) b[i] = 65;
	for (let i = Math.max(0, b.length - 6); i < b.length; i++) b[i] = 66;
	for (let p = 0, st = T.start[2]; p < b.length;) { const r = decodeRef('chunk', b.subarray(p), st); if (!r.end) break; for (let i = Math.max(0, p + r.r - 5); i < p + r.r; i++) b[i] = 65; p += r.r; st = 0; }
}
const own = f => { try { return f(); } catch (e) { return { failed: 'threw ' + e.message }; } };
const counted = (o, r) => Number.isInteger(r) && r >= 0 && r <= o.length ? o.subarray(0, r) : { failed: 'returned ' + r };

const LS = [128, 128, 128, 64, 33, 100, 256, 997, 1, 2, 13, 16, 65536, 5000, 1 << 20, 1 << 30, 2147483647];
const lsOf = g => g.pick(LS), colOf = (g, ls) => g.p(0.5) ? 0 : g.n(Math.min(ls, 70000) + 1);
function enc(g, d, ls, col) {
	const via = g.pick(['encode', 'encodeTo']), o = via === 'encodeTo' ? alloc(y.maxSize(d.length, ls), g.n(64)) : null;
	const out = own(() => o ? counted(o, y.encodeTo(d, o, ls, col)) : y.encode(d, ls, col));
	return [out, via];
}
// ---- periodic data whose encoding / decoding is periodic
function encBlock(g, ls, min) { // ends with a full line and an ordinary byte
	const m = encStepper(ls, 0), o = []; let seg = Buffer.alloc(0), i = 0;
	for (;;) {
		if (i >= seg.length) { seg = Buffer.alloc(g.r(500, 6000)); genEncData(g, seg.length, seg); i = 0; }
		const left = ls - m.col(), want = o.length >= min && left === 1;
		const b = want ? 90 : seg[i++]; m.step(b, false); o.push(b);
		if (want) return Buffer.from(o);
	}
}
function decBlock(g, mode, min) { // contains no end of the data; what it decodes to does not depend on what precedes it, and leaves no state behind
	const o = [Buffer.from('AB')]; let n = 2;
	while (n < min) { const s = Buffer.alloc(g.r(200, 6000)); genDecData(g, s.length, s, 0); const t = Buffer.concat([s, Buffer.from('AB')]); if (decodeRef('chunk', t, T.start[2]).end === 0) { o.push(t); n += t.length; } }
	return Buffer.concat(o);
}
function memory(gib) { // wait for, and say whether there is, enough memory
	for (let k = 0; k < 90; k++) {
		let a = 0; try { a = Number(/MemAvailable:\s+(\d+)/.exec(C.fs.readFileSync('/proc/meminfo', 'latin1'))[1]) / 1048576; } catch (e) { return true; }
		if (a > gib + 2) return true;
		Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 1000);
	}
	count('skipped for want of memory'); return false;
}
// out should be `first` repeated (ending `cut` bytes short): returns the first deviating position or -1
function periodic(out, first, total) {
	const E = first.length, h = Math.min(E, out.length, total);
	if (Buffer.compare(out.subarray(0, h), first.subarray(0, h))) return firstDiff(out.subarray(0, h), first.subarray(0, h));
	const n = Math.min(out.length, total), STEP = 1 << 26;
	for (let p = E; p < n; p += STEP) { const q = Math.min(n, p + STEP), a = out.subarray(p, q), b = out.subarray(p - E, q - E); if (Buffer.compare(a, b)) return p + firstDiff(a, b); }
	return out.length === total ? -1 : n;
}
const slices = (a, b, at) => { const p = Math.max(0, at - WIN), q = at + WIN; return [B(a.subarray(p, q)), B(b.subarray(p, q)), p]; };

const jobs = {
	enc() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const d = big(g, logSize(g), genEncData), ls = lsOf(g), col = colOf(g, ls); rec.evaluations++;
			calling(() => ({ op: 'encode', size: d.length, ls, col }));
			const [out, via] = enc(g, d, ls, col);
			if (out.failed) { mismatch({ op: 'encodeWindow', via, ls, col, size: d.length, failed: out.failed }); continue; }
			const exp = encodeRef(d, ls, col);
			if (Buffer.compare(out, exp)) mismatch(encWindow(d, ls, col, out, firstDiff(out, exp), via));
			else if (k % 3 === 0) sample(() => encWindow(d, ls, col, out, g.n(out.length), via));
		}
	},
	transport() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const d = big(g, logSize(g), genEncData), ls = g.pick([128, 128, 64, 33, 100, 256, 997, 1, 2, 13, 16, 300]), col = colOf(g, ls); rec.evaluations++;
			calling(() => ({ op: 'transport', size: d.length, ls, col }));
			const [out] = enc(g, d, ls, col);
			if (out.failed) { mismatch({ op: 'transport', ls, col, size: d.length, failed: out.failed }); continue; }
			const bad = C.transportBad(out, ls, col === ls ? 0 : col);
			const ev = at => { // whole lines around a position; the judge starts where a line starts
				let p = at, q = at; for (let l = 0; p > 0 && l < 3; l++) { p = out.lastIndexOf('\r\n', p - 1); if (p < 0) { p = 0; break; } } if (p > 0) p += 2; if (at - p > 5000) p = at - 5000;
				q = out.indexOf('\r\n', Math.min(out.length, at + 2)); if (q < 0 || q - at > 5000) q = Math.min(out.length, at + 5000);
				return { op: 'transport', ls, col: p === 0 ? (col === ls ? 0 : col) : 0, at: p, size: d.length, data: [1], out: B(out.subarray(p, q)) };
			};
			if (bad >= 0) mismatch(ev(bad)); else if (k % 3 === 0 && ls < 400) sample(() => ev(g.n(out.length)));
		}
	},
	rt() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const d = big(g, logSize(g), genEncData), ls = lsOf(g), col = colOf(g, ls), how = k % 5; rec.evaluations++;
			calling(() => ({ op: 'roundtrip', how, size: d.length, ls, col }));
			const back = own(() => {
				const e = y.encode(d, ls, col);
				if (how === 0) return y.decode(e);
				if (how === 1) return counted(e, y.decodeTo(e, e));
				const s = C.stuff(e);
				if (how === 2) return y.decode(s, true);
				if (how === 3) return counted(s, y.decodeTo(s, s, true));
				const parts = [], step = g.pick([s.length, 1 << 20, 65536, g.r(70000, 3000000)]); let st = null;
				for (let p = 0; p < s.length; p += step) { const r = y.decodeChunk(s.subarray(p, p + step), st); if (r.ended) return { failed: 'ended early' }; parts.push(r.output); st = r.state; }
				return Buffer.concat(parts);
			});
			if (back.failed) { mismatch({ op: 'roundtrip', how, ls, col, size: d.length, failed: back.failed }); continue; }
			const ev = at => { const [a, b, p] = slices(d, back, at); return { op: 'roundtrip', how, ls, col, size: d.length, at: p, data: a, back: b }; };
			if (Buffer.compare(back, d)) mismatch(ev(firstDiff(back, d))); else if (k % 3 === 0) sample(() => ev(g.n(d.length)));
		}
	},
	dec() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const d = big(g, logSize(g), genDecData), strip = g.p(0.6), how = g.n(3), mode = strip ? 'raw' : 'plain'; rec.evaluations++;
			calling(() => ({ op: 'decode', how, size: d.length, mode }));
			let orig = d; if (how === 2) orig = Buffer.from(d);
			const out = own(() => how === 0 ? y.decode(d, strip) : how === 1 ? (o => counted(o, y.decodeTo(d, o, strip)))(alloc(d.length, g.n(64))) : counted(d, y.decodeTo(d, d, strip)));
			if (out.failed) { mismatch({ op: 'decodeWindow', how, mode, size: d.length, failed: out.failed }); continue; }
			const exp = decodeRef(mode, orig).o;
			if (Buffer.compare(out, exp)) mismatch(decWindow(mode, orig, out, firstDiff(out, exp), undefined, { how })); else if (k % 3 === 0) sample(() => decWindow(mode, orig, out, g.n(out.length + 1), undefined, { how }));
		}
	},
	// sessions of large chunks; for C06 with an end of the data somewhere, possibly far away
	stream() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const end = P.op === 'end' || g.p(0.4), d = big(g, logSize(g), genDecData, noEnds), start = P.op === 'end' ? '\r\n' : g.pick(STATESTR);
			if (end) { const t = g.pick(C.DEND), at = d.length - t.length - (g.p(0.5) ? g.n(300) : g.n(d.length >> 1)); t.copy(d, at); }
			const step = g.pick([d.length, d.length, g.r(65536, d.length), 1 << 20, 262144, 65536 + g.n(3)]), insitu = g.p(0.3); rec.evaluations++;
			let str = start, p = 0;
			do {
				const c = d.subarray(p, p + step), orig = insitu ? Buffer.from(c) : c, st0 = STATESTR.indexOf(str);
				calling(() => ({ op: 'stream', size: c.length, start: S(str) }));
				const r = own(() => insitu ? y.decodeChunk(c, str, c) : y.decodeChunk(c, str));
				const x = decodeRef('chunk', orig, st0), bad = m => { mismatch(Object.assign({ op: 'stream', failed: m, size: c.length, start: S(str), got: r.failed ? {} : { read: r.read, written: r.written, ended: r.ended, state: String(r.state) }, expected: { read: x.r, written: x.o.length, ended: !!x.end } })); };
				if (r.failed) { bad(r.failed); break; }
				if (!Number.isInteger(r.written) || r.written < 0 || !r.output || r.written > r.output.length) { bad('malformed result'); break; }
				const out = r.output.subarray(0, r.written);
				if (Buffer.compare(out, x.o)) { mismatch(decWindow('chunk', orig, out, firstDiff(out, x.o), st0)); break; }
				const state = x.end ? ENDSTR[x.end - 1] : STATESTR[x.st];
				if (r.read !== x.r || r.ended !== (x.end !== 0) || r.state !== state) {
					// what remains after a prefix that is known to be right is judged by itself
					const cut = Math.max(0, x.r - 200), a = decodeRef('chunk', orig.subarray(0, cut), st0);
					mismatch({ op: 'stream', form: 'tail of ' + c.length, start: S(STATESTR[a.st]), calls: [{ data: B(orig.subarray(cut, cut + 400)), read: r.read - cut, written: out.length - a.o.length, out: B(out.subarray(a.o.length)), ended: !!r.ended, state: S(String(r.state)) }] }); break;
				}
				if (k % 3 === 0) sample(() => decWindow('chunk', orig, out, g.n(out.length + 1), st0));
				str = r.state; p += c.length; if (r.ended) { count('ended'); break; }
			} while (p < d.length);
		}
	},
	crc() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const n = logSize(g), d = big(g, n, (g, l, o) => { for (let i = 0; i < l; i++) o[i] = g.u(); }), init = g.p(0.5) ? 0 : g.u(); rec.evaluations++;
			calling(() => ({ op: 'crcLong', size: n }));
			const o = own(() => num(y.crc32(d, u32(init)))), x = crcRef(d, init);
			if (o === x) continue;
			if (o.failed) { mismatch({ op: 'segments', failed: o.failed, size: n }); continue; }
			// the last bytes by themselves, given the hash of the rest, and as zeroes plus difference: judged as segments
			mismatch({ op: 'segments', init: pair(crcRef(d.subarray(0, n - 64), init)), parts: [{ data: B(d.subarray(n - 64)), zeros: [0] }], out: pair(o), size: n });
		}
	},

	// ------------------------------------------------------------ beyond 2 and 4 GiB
	hugeEnc() {
		const g = new Rng(P.seed), ls = g.pick([128, 128, 100, 64]), blk = encBlock(g, ls, 60000), reps = Math.ceil((P.min || 2147483648) / blk.length) + 1;
		if (!memory((P.min || 2147483648) * 2.6 / 1073741824)) return;
		const n = blk.length * reps, d = alloc(n, g.n(64)); blk.copy(d); tile(d, blk.length);
		const first = Buffer.concat([encodeRef(blk, ls, 0), Buffer.from('\r\n')]), total = first.length * reps - 2;
		rec.evaluations++; calling(() => ({ op: 'encode', size: n, ls }));
		const out = own(() => { const o = alloc(y.maxSize(n, ls), g.n(64)); return counted(o, y.encodeTo(d, o, ls)); });
		if (out.failed) return mismatch({ op: 'encodeWindow', failed: out.failed, size: n });
		const at = periodic(out, first, total);
		const win = q => { const r = Math.max(0, Math.min(reps - 2, Math.floor(q / first.length) - 1)); return encWindow(d.subarray(r * blk.length, Math.min(n, (r + 3) * blk.length)), ls, r ? ls : 0, out.subarray(r ? r * first.length - 2 : 0), q - (r ? r * first.length - 2 : 0), 'encodeTo', { base: r, huge: n }); };
		if (at >= 0) { const e = win(at); if (e.col === ls && e.at === 0) e.full = true; mismatch(e); } else { count('bytes', n); }
	},
	hugeDec() {
		const g = new Rng(P.seed), mode = P.mode || g.pick(['plain', 'raw', 'chunk']), blk = decBlock(g, mode, 70000), reps = Math.ceil((P.min || 2147483648) / blk.length) + 1;
		if (!memory((P.min || 2147483648) * 1.4 / 1073741824)) return;
		const tail = mode === 'chunk' ? g.pick([Buffer.from('\r\n.\r\nrest'), Buffer.from('\r\n=yend'), Buffer.from('\r\n..A')]) : Buffer.from('AB'), n = blk.length * reps + tail.length, d = alloc(n, g.n(64)); blk.copy(d); tile(d.subarray(0, n - tail.length), blk.length); tail.copy(d, n - tail.length);
		const x0 = decodeRef(mode, blk), first = x0.o, t = decodeRef(mode, tail, 0), total = first.length * reps + t.o.length;
		rec.evaluations++; calling(() => ({ op: 'decode', mode, size: n }));
		let st; const out = own(() => mode !== 'chunk' ? counted(d, y.decodeTo(d, d, mode === 'raw')) : (r => { st = r; return counted(d, r.written); })(y.decodeChunk(d, null, d)));
		if (out.failed) return mismatch({ op: 'decodeWindow', failed: out.failed, size: n, mode });
		const bodyN = first.length * reps, at = periodic(out.length >= bodyN ? out.subarray(0, bodyN) : out, first, bodyN);
		if (at >= 0) { const r = Math.max(0, Math.floor(at / first.length) - 1), src = Buffer.concat([blk, blk, blk]); return mismatch(decWindow(mode, src, out.subarray(r * first.length), at - r * first.length, r ? 0 : undefined, { base: r, huge: n })); }
		const rest = out.subarray(bodyN), e = { op: 'stream', form: 'tail of ' + n, start: [], calls: [{ data: B(tail), read: st ? st.read - blk.length * reps : tail.length, written: rest.length, out: B(rest), ended: !!(st && st.ended), state: st ? S(String(st.state)) : [] }] };
		if (Buffer.compare(rest, t.o) || st && (st.read !== blk.length * reps + t.r || st.ended !== (t.end !== 0) || st.state !== (t.end ? ENDSTR[t.end - 1] : STATESTR[t.st]))) mismatch(mode === 'chunk' ? e : decWindow(mode, tail, rest, 0, 0, { huge: n }));
		else { count('bytes', n); if (mode === 'chunk') sample(() => e); }
	},
	hugeCrc() {
		const g = new Rng(P.seed);
		for (const min of P.mins || [2147483648, 4294967296]) {
			if (!memory(min / 1073741824)) continue;
			const n = min + g.r(5, 3000), a = Buffer.alloc(g.r(1, 300)), b = Buffer.alloc(g.r(1, 300)); for (const x of [a, b]) for (let i = 0; i < x.length; i++) x[i] = g.u();
			const d = Buffer.alloc(n + 64).subarray(g.n(64)).subarray(0, n), init = g.u(); a.copy(d); b.copy(d, n - b.length); const z = n - a.length - b.length;
			rec.evaluations++; calling(() => ({ op: 'crcLong', size: n }));
			const o = own(() => num(y.crc32(d, u32(init))));
			const e = { op: 'segments', init: pair(init), parts: [{ data: B(a), zeros: limbs(z) }, { data: B(b), zeros: [0] }], out: o.failed ? [0, 0] : pair(o), size: n }; if (o.failed) e.failed = o.failed;
			const mid = (~mul(~crcRef(a, init) >>> 0, xpow(8 * z))) >>> 0;
			if (o !== crcRef(b, mid)) mismatch(e); else sample(() => e);
		}
	},
};
main(jobs);
