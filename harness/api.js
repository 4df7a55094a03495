'use strict';
// Calling conventions: decodeChunk's forms (C07), sizes and gates (C10), argument checking (C17).
const C = require('./common.js');
const { P, T, y, Rng, encodeRef, decodeRef, crcRef, STATESTR, ENDSTR, B, S, rec, sample, due, mismatch, calling, main, count, genDecData, genEncData, view } = C;
const { decodeChunk, minSize, maxSize } = y;     // also called detached from the module object
const N = P.n || 1;
const digits = n => { if (!Number.isSafeInteger(n) || n < 0) return [-1]; return String(n).split('').map(Number); };
const same = (a, b) => Buffer.compare(a, b) === 0;

// ---------------------------------------------------------------- decodeChunk
function stateOf(s) { s = s.slice(-4); if (s === '\r\n.=') s = '\r\n='; for (let k = s.length; k > 0; k--) { const i = STATESTR.indexOf(s.slice(s.length - k)); if (i >= 0) return i; } return STATESTR.indexOf(''); }
const FORMS = ['d', 'ds', 'do', 'dso', 'dos'];
// kind: string | null | undef;  out: null or {len, insitu, align}
function chunk(data, form, kind, str, o, g) {
	rec.evaluations++;
	const n = data.length, st = kind === 'string' ? str : kind === 'null' ? null : undefined;
	let src = data, out = null, before = null;
	if (o) {
		if (o.insitu) { out = view(1, n, o.align); data.copy(out); src = out; }
		else { out = view(1, o.len, o.align); out.fill(0xa7); }
		before = Buffer.from(out);
	}
	const guard = o ? Buffer.from(C.pool[1].subarray(o.align + out.length, o.align + out.length + 64)) : null;
	const e = { op: 'chunk', form, stateKind: kind, state: S(kind === 'string' ? str : ''), data: B(data), hasOut: !!out, insitu: !!(o && o.insitu), align: o ? o.align : 0 };
	calling(() => e);
	let r = null, err = null;
	try {
		r = form === 'd' ? (rec.evaluations & 1 ? y.decodeChunk(src) : decodeChunk(src)) : form === 'ds' ? y.decodeChunk(src, st) : form === 'do' ? y.decodeChunk(src, out)
			: form === 'dso' ? (rec.evaluations & 1 ? y.decodeChunk(src, st, out) : decodeChunk(src, st, out)) : y.decodeChunk(src, out, st);
	} catch (er) { err = er; }
	const rej = out !== null && out.length < n;
	const mk = () => {
		e.threw = err !== null;
		if (err) { e.message = String(err.message); e.untouched = before === null || same(before, out); e.outLen = out ? out.length : 0; e.out = []; return e; }
		e.untouched = true;
		const isb = r && Buffer.isBuffer(r.output);
		e.types = !!r && Number.isInteger(r.read) && Number.isInteger(r.written) && isb && typeof r.ended === 'boolean' && typeof r.state === 'string';
		e.read = r.read; e.written = r.written; e.ended = r.ended === true; e.newState = typeof r.state === 'string' ? S(r.state) : [255];
		e.outLen = isb ? r.output.length : -1; e.out = isb && r.written >= 0 && r.written <= r.output.length ? B(r.output.subarray(0, r.written)) : [];
		e.sameOut = out !== null && r.output === out; e.tail = out === null || (same(out.subarray(n), before.subarray(n)) && same(guard, C.pool[1].subarray(o.align + out.length, o.align + out.length + 64)));
		return e;
	};
	let ok;
	if (rej) ok = err !== null && same(before, out);
	else if (err) ok = false;
	else {
		const eff = kind === 'string' ? str : '\r\n', s0 = stateOf(eff);
		mk();
		ok = e.types && (out ? e.sameOut && e.tail : e.outLen === r.written);
		if (ok && n === 0) ok = r.read === 0 && r.written === 0 && !r.ended && stateOf(r.state) === s0;
		else if (ok) { const x = decodeRef('chunk', data, s0); ok = r.read === x.r && r.written === x.o.length && r.ended === (x.end !== 0) && r.state === (x.end ? ENDSTR[x.end - 1] : STATESTR[x.st]) && same(r.output.subarray(0, r.written), x.o); }
	}
	count((rej ? 'rejected ' : 'accepted ') + form);
	if (!ok) mismatch(Object.assign({}, mk()));
	else if (due()) sample(mk);
}
const PROBES = ['', 'A', '=', '.', '\r', '\n', 'y', '=y', '.=y', '.\r\n', '\n.\r\n', '\r\n', 'AB', '..', '=\r\n', '\n=y', '\r\n.\r\nA'].map(s => Buffer.from(s, 'latin1'));
const ALPHA = ['\r', '\n', '.', '=', 'y', 'a', '\0', '\u20ac'];

// ---------------------------------------------------------------- sizes
const PAD = () => y.maxSize(1, 1000000) - 2;
function sizeCall(fn, n, ls, num, den) {
	rec.evaluations++;
	const e = { op: fn, n: digits(n), ls: ls || 0, num: num === undefined ? 1 : num, den: den || 1, pad: PAD() };
	calling(() => e);
	e.bad = num !== undefined && (num < 0 || num > den);
	e.threw = false; e.out = [-1];
	try {
		const v = fn === 'minSize' ? (ls === undefined ? minSize(n) : y.minSize(n, ls)) : num === undefined ? (ls === undefined ? maxSize(n) : y.maxSize(n, ls)) : y.maxSize(n, ls, num / den);
		e.out = digits(v);
	} catch (er) { e.threw = true; }
	rec.samples.push(e);
}

// ---------------------------------------------------------------- argument lists
const strOf = 'some string';
const KINDS = {
	buf0: g => Buffer.alloc(0), buf3: g => Buffer.from([1, 2, 3]), buf4: g => Buffer.from([0x12, 0x34, 0x56, 0x78]), buf5: g => Buffer.from([19, 214, 4, 223, 65]), buf200: g => Buffer.alloc(200, 0x5a),
	undef: g => undefined, null: g => null, false: g => false, true: g => true, str: g => strOf, empty: g => '', num: g => 5, arr: g => [1, 2, 3, 4], obj: g => ({ length: 4, 0: 1 }), fn: g => () => 1, sym: g => Symbol('x'), big: g => 5n, ab: g => new ArrayBuffer(4),
};
const NUMS = { undef: undefined, zero: 0, one: 1, three: 3, four: 4, five: 5, sixtyfour: 64, hundred28: 128, hundred29: 129, minus1: -1, minus128: -128, min: -2147483648, max: 2147483647, mzero: -0, two31: 2147483648, two32: 4294967296, two32plus: 4294967298, minus2to32: -4294967296, minus2to32less: -4294967200, inf: Infinity, minusinf: -Infinity, most: Number.MAX_SAFE_INTEGER, nan: NaN, half: 0.5, minushalf: -0.5 };
const BUFK = Object.keys(KINDS), NUMK = Object.keys(NUMS);
function desc(k, v) {
	if (Buffer.isBuffer(v)) return { t: 'buf', n: v.length };
	if (v === undefined) return { t: 'undef' };
	if (typeof v === 'number' && Math.abs(v) > 2147483647) return { t: 'vast', neg: v < 0 };
	if (typeof v === 'number' && Number.isInteger(v)) return { t: 'num', v: v };
	return { t: 'junk' };
}
const probeData = Buffer.from('\r\n..ab=}\0\x13xyz'.repeat(9), 'latin1'), probeEnc = encodeRef(probeData, 128, 0), probeDec = decodeRef('raw', probeData).o, probeCrc = crcRef(probeData);
function probe() { return same(y.encode(probeData), probeEnc) && same(y.decode(probeData, true), probeDec) && y.crc32(probeData).readUInt32BE(0) === probeCrc; }
const val = (a, d) => typeof a === 'number' && a === a ? Math.trunc(Math.min(a, 2147483647)) : d;
const CRCN = { crc32_combine: 1, crc32_zeroes: 1, crc32_shift: 1, crc32_multiply: 1 };
// the right result of an accepted call; null = not checked here
function right(fn, a, r, befores) {
	if (fn === 'encode') return Buffer.isBuffer(r) && same(r, encodeRef(a[0], val(a[1], 0), val(a[2], 0)));
	if (fn === 'encodeTo') { const x = encodeRef(befores[0], val(a[2], 0), val(a[3], 0)); return r === x.length && same(a[1].subarray(0, r), x); }
	if (fn === 'decode') return Buffer.isBuffer(r) && same(r, decodeRef(a[1] === true ? 'raw' : 'plain', a[0]).o);
	if (fn === 'decodeTo') { const x = decodeRef(a[2] === true ? 'raw' : 'plain', befores[0]).o; return r === x.length && same(a[1].subarray(0, r), x); }
	if (fn === 'crc32') return Buffer.isBuffer(r) && r.length === 4 && r.readUInt32BE(0) === crcRef(a[0], a.length > 1 ? a[1].readUInt32BE(0) : 0);
	return Buffer.isBuffer(r) && r.length === 4;
}
let probeEvery = 0;
function gate(fn, ks, vs) {
	rec.evaluations++;
	const args = vs.map((v, i) => desc(ks[i], v)), befores = vs.map(v => Buffer.isBuffer(v) ? Buffer.from(v) : null);
	const l = fn === 'encode' || fn === 'encodeTo' ? vs[fn === 'encode' ? 1 : 2] : 0;
	let max = 0; try { if (fn === 'encodeTo' && Buffer.isBuffer(vs[0])) max = y.maxSize(vs[0].length, typeof l === 'number' && l > 0 ? l : 128); } catch (er) { max = -1; }
	const e = { op: 'gate', fn, kinds: ks, args, max };
	calling(() => e);
	let r, err = null; e.threw = false; e.errorType = true;
	try { r = y[fn](...vs); } catch (er) { e.threw = true; e.errorType = er instanceof Error; e.message = String(er && er.message); }
	e.untouched = vs.every((v, i) => !befores[i] || same(v, befores[i]));
	e.probe = ++probeEvery % 16 ? true : probe();
	const v = verdict(fn, args, max);
	e.right = e.threw ? false : v === 'ok' ? right(fn, vs, r, befores) : true;
	count(fn + ' ' + v);
	const ok = e.errorType && e.probe && (v === 'ok' ? !e.threw && e.right : v === 'error' ? e.threw && e.untouched : true);
	if (!ok) mismatch(e); else if (due()) sample(() => e);
}
// filter: the rules of Gate.tla; TLC judges every deviation and the samples
function verdict(fn, a, max) {
	const A = i => a[i] || { t: 'undef' }, buf = x => x.t === 'buf', crc = x => buf(x) && x.n === 4, or = (x, d) => x.t === 'num' ? x.v : x.t === 'vast' ? (x.neg ? -1 : 1) * 2147483647 : d;
	const numeric = x => x.t === 'num' || x.t === 'vast' || x.t === 'undef', given = i => i < a.length;
	const lines = (l, c) => { if (!numeric(l) || !numeric(c)) return 'open'; const L = or(l, 0) || 128; return L < 0 || or(c, 0) < 0 || or(c, 0) > L ? 'error' : 'ok'; };
	switch (fn) {
		case 'encode': return !buf(A(0)) ? 'error' : A(0).n === 0 ? 'ok' : lines(A(1), A(2));
		case 'encodeTo': { if (!buf(A(0)) || !buf(A(1))) return 'error'; if (A(0).n === 0) return 'ok'; const l = lines(A(2), A(3)); return l !== 'ok' ? l : A(1).n < max ? 'error' : 'ok'; }
		case 'decode': return buf(A(0)) ? 'ok' : 'error';
		case 'decodeTo': return !buf(A(0)) || !buf(A(1)) ? 'error' : A(1).n < A(0).n ? 'error' : 'ok';
		case 'crc32': return !buf(A(0)) ? 'error' : given(1) && !crc(a[1]) ? 'error' : 'ok';
		case 'crc32_combine': return !crc(A(0)) || !crc(A(1)) || !given(2) ? 'error' : a[2].t !== 'num' || a[2].v < 0 ? 'open' : 'ok';
		case 'crc32_zeroes': case 'crc32_shift': return !given(0) ? 'error' : given(1) && !crc(a[1]) ? 'error' : a[0].t !== 'num' ? 'open' : 'ok';
		case 'crc32_multiply': return !crc(A(0)) || !crc(A(1)) ? 'error' : 'ok';
	}
}
const b = k => KINDS[k]();
const jobs = {
	chunkForms() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const n = g.pick([0, 0, 1, 2, 3, g.n(20), g.n(100), g.n(600)]), align = g.n(64), data = view(0, n, align);
			genDecData(g, n, data, g.pick([0, 0, 0.1, 0.3]));
			const form = g.pick(FORMS), kind = form === 'd' || form === 'do' ? 'undef' : g.pick(['string', 'string', 'null', 'undef']);
			let str = '\r\n'; if (kind === 'string') str = g.p(0.6) ? g.pick(STATESTR.concat(ENDSTR, ['\r\n.='])) : Array.from({ length: g.n(9) }, () => g.pick(ALPHA)).join('');
			const o = form.includes('o') ? { insitu: g.p(0.3), len: g.pick([n, n, n + 1, n + g.n(100), Math.max(0, n - 1), g.n(n + 1), 0]), align: g.n(64) } : null;
			chunk(data, form, kind, str, o, g);
		}
	},
	chunkStates() { // every state string up to a length, whatever it means, against short continuations
		const maxLen = P.maxLen || 4, al = ALPHA.slice(0, 6); let strs = [''], all = [''];
		for (let l = 1; l <= maxLen; l++) { strs = [].concat(...strs.map(s => al.map(c => s + c))); all = all.concat(strs); }
		all.push('\u20ac\r\n', '\r\n\u20ac', 'x'.repeat(1000) + '\r\n.', 'x'.repeat(1000), '\r\n.\r\n', '\r\n=y', '\r\n.=y', '=\r\n.=', '\r\r\n.=', '..\r\n.=');
		let k = 0;
		for (const s of all) for (const p of PROBES) { const f = ['ds', 'dso', 'dos'][k++ % 3]; chunk(p, f, 'string', s, f === 'ds' ? null : { insitu: k % 5 === 0, len: p.length + k % 4, align: k % 64 }); }
	},
	sizes() { // the formulas, all recorded for TLC
		const g = new Rng(P.seed), nums = [0, 1, 2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 65535, 1000000, 2147483583, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 1e12, 1125899906842624, 999999999999999];
		const lss = [undefined, 0, 1, 2, 3, 5, 63, 64, 100, 127, 128, 129, 255, 256, 1000, 65536, 99999999];
		for (const n of nums) for (const ls of lss) { sizeCall('minSize', n, ls); sizeCall('maxSize', n, ls); }
		for (let k = 0; k < N; k++) {
			const n = g.pick([g.n(300), g.n(100000), g.u(), g.u() * 8192 + g.n(8192)]), ls = g.pick([g.r(1, 300), g.r(1, 99999999), 128]), den = g.pick([1, 2, 4, 64, 128, 1024]);
			if (n * 2 * den > 9e15 || n * 6 > 9e15) continue;
			sizeCall('minSize', n, ls); sizeCall('maxSize', n, ls, g.n(den + 1), den); if (g.p(0.2)) sizeCall('maxSize', n, ls, g.pick([-1, den + 1, -den, 2 * den, 1000 * den]), den);
		}
	},
	extremes() { // sizes of actual encodings with the least and the most escaping
		const g = new Rng(P.seed), buf = Buffer.alloc(P.max || 6000);
		for (let k = 0; k < N; k++) {
			const n = g.pick([g.r(1, 20), g.r(1, 300), g.r(1, buf.length)]), ls = g.pick([1, 2, 3, 4, 5, g.r(1, 40), g.r(1, 300), 128, 127, 64]), col = g.p(0.5) ? 0 : g.n(ls), kind = g.n(5), d = buf.subarray(0, n);
			if (kind === 0) d.fill(g.r(20, 170)); else if (kind === 1) d.fill(g.pick([214, 224, 227, 19])); else if (kind === 2) for (let i = 0; i < n; i++) d[i] = i % 2 ? 214 : 65; else if (kind === 3) for (let i = 0; i < n; i++) d[i] = g.pick([4, 223, 246, 214, 65]); else genEncData(g, n, d);
			let plain = true; for (let i = 0; i < n; i++) if ([214, 224, 227, 19, 223, 246, 4].includes(d[i])) { plain = false; break; }
			rec.evaluations++;
			const e = { op: 'size', ls, col, n: digits(n), plain, min: digits(y.minSize(n, ls)), max: digits(y.maxSize(n, ls)) };
			let len; const o = Buffer.alloc(y.maxSize(n, ls)); try { len = g.p(0.5) ? y.encode(d, ls, col).length : y.encodeTo(d, o, ls, col); } catch (er) { e.failed = er.message; len = 0; }
			e.len = digits(len);
			const L = len, mn = n + 2 * Math.floor((n - 1) / ls), bound = 2 * n + 2 * Math.floor(2 * n / ls) + 2;
			const ok = !e.failed && L <= bound && L <= y.maxSize(n, ls) && (col !== 0 || y.minSize(n, ls) <= L) && (col !== 0 || !plain || L === y.minSize(n, ls));
			if (!ok) mismatch(e); else if (due()) sample(() => e);
		}
	},
	gates() { // output Buffers around the limit
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const n = g.pick([1, 2, g.r(1, 200), g.r(1, 2000)]), ls = g.pick([undefined, 0, 1, 2, 3, 64, 127, 128, 129, 256, g.r(1, 500)]), d = Buffer.alloc(n); genEncData(g, n, d);
			const m = y.maxSize(n, ls), o = Buffer.alloc(Math.max(0, g.pick([m, m - 1, m + 1, m - g.n(70), m + g.n(70), g.n(m), y.encode(d, ls || 128).length])), 0x33);
			gate('encodeTo', ['data', 'out', 'ls'], ls === undefined ? [d, o] : g.p(0.5) ? [d, o, ls] : [d, o, ls, g.n((ls || 128) + 1)]);
			const o2 = Buffer.alloc(Math.max(0, g.pick([n, n - 1, n + 1, g.n(n), n + g.n(70)])), 0x33); gate('decodeTo', ['data', 'out'], g.p(0.5) ? [d, o2] : [d, o2, g.p(0.5)]);
		}
	},
	args() { // all tuples of argument kinds
		const g = new Rng(P.seed), bufs = BUFK, nums = NUMK, light = ['buf0', 'buf4', 'buf5', 'undef', 'null', 'str', 'num', 'obj'];
		const go = (fn, lists) => { const rec1 = (ks, vs, i) => { gate(fn, ks, vs.map(f => f())); if (i < lists.length) for (const k of lists[i]) rec1(ks.concat(k), vs.concat(k in NUMS && lists[i] !== bufs && lists[i] !== light ? () => NUMS[k] : () => b(k)), i + 1); }; rec1([], [], 0); };
		go('encode', [bufs, nums, nums]);
		go('encodeTo', [light, bufs, nums, nums]); go('encodeTo', [bufs, light]);
		go('decode', [bufs, ['true', 'false', 'undef']]);
		go('decodeTo', [bufs, bufs, ['true', 'false', 'undef']]);
		go('crc32', [bufs, bufs]); go('crc32_combine', [bufs, bufs, nums.filter(k => k !== 'undef')]); go('crc32_multiply', [bufs, bufs]);
		go('crc32_zeroes', [nums.filter(k => k !== 'undef'), bufs]); go('crc32_shift', [nums.filter(k => k !== 'undef'), bufs]);
		// views of Buffers that are no Buffer.from products: other kinds of Buffer objects are Buffers too
		for (const mk of [d => Buffer.from(d.buffer, d.byteOffset, d.length), d => d.subarray(0), d => Buffer.concat([d])]) { const d = mk(Buffer.from([1, 2, 3, 4])); gate('encode', ['view'], [d]); gate('crc32', ['view', 'view'], [d, d]); gate('decode', ['view'], [d]); }
	},
	huge() { // at and beyond 2 and 4 GiB
		const ev = (what, expected, f) => { rec.evaluations++; const e = { op: 'huge', what, expected: expected.map(digits), threw: false, got: [] }; calling(() => e); try { e.got = f().map(digits); } catch (er) { e.threw = true; e.message = er.message; } rec.samples.push(e); };
		const n = 2147483648 + 5, big = Buffer.alloc(n, 100);
		ev('decodeTo', [n], () => [y.decodeTo(big, big)]);
		big.fill(100); ev('decodeChunk', [n, n], () => { const r = y.decodeChunk(big, null, big); return [r.read, r.written]; });
		big.fill(100); const lines = y.minSize(n, 1000000), out = Buffer.allocUnsafeSlow(y.maxSize(n, 1000000));
		ev('encodeTo', [lines], () => [y.encodeTo(big, out, 1000000)]);
		ev('encodeTo short output', [1], () => { try { y.encodeTo(big, out.subarray(0, out.length - 1), 1000000); return [0]; } catch (e) { return [1]; } });
		ev('decodeTo short output', [1], () => { try { y.decodeTo(big, out.subarray(0, n - 1)); return [0]; } catch (e) { return [1]; } });
		ev('decode', [n], () => [y.decode(big).length]);
		ev('encode', [lines], () => [y.encode(big, 1000000).length]);
		{ // input and outputs of more than 4 GiB, never touched as long as they are refused
			const z = Buffer.alloc(4294967296 + 64), o = Buffer.allocUnsafeSlow(y.maxSize(z.length + 64, 64));
			for (const len of [4294967296, 4294967296 + 64, 4294967295, 2147483648, 3221225472]) for (const ls of [128, undefined, 64, 1000000, 127]) {
				const d = z.subarray(0, len), m = y.maxSize(len, ls);
				for (const short of [1, 64, Math.floor(len / 64), Math.floor(m / 3), 2 * Math.floor(len / 64)]) ev('encodeTo short output', [1], () => { try { y.encodeTo(d, o.subarray(0, m - short), ls); return [0]; } catch (e) { return [1]; } });
			}
			for (const len of [4294967296, 4294967296 + 64, 4294967295]) for (const short of [1, 2, 64, len - 1, len]) ev('decodeTo short output', [1], () => { try { y.decodeTo(z.subarray(0, len), o.subarray(0, len - short)); return [0]; } catch (e) { return [1]; } });
		}
		if (P.crc) { const zlib = require('zlib'), z = Buffer.alloc(4294967296 + 7); ev('crc32', [y.crc32_zeroes(z.length).readUInt32BE(0)], () => [y.crc32(z).readUInt32BE(0)]); }
	},
};
main(jobs);
