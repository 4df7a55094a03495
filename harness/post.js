'use strict';
// post and multi_post (C12, C13) and reading their articles back (C14).
const C = require('./common.js');
const { P, T, y, Rng, encodeRef, crcRef, B, rec, due, sample, mismatch, calling, main, count, fs } = C;
const { run, hex } = require('./parselib.js');
const N = P.n || 1;
const L1 = s => Buffer.from(s, 'latin1');
const units = s => Array.from({ length: s.length }, (_, i) => s.charCodeAt(i));
const digits = n => String(n).split('').map(Number);
const split16n = v => [v >>> 16, v & 65535];
const split16 = b => [b.readUInt16BE(0), b.readUInt16BE(2)];
const same = (a, b) => Buffer.isBuffer(a) && Buffer.compare(a, b) === 0;
const clean = s => s.replace(/[\r\n\0]/g, '').slice(0, 256);

// reference articles, for filtering; TLC has the last word on everything that deviates and on the samples
const headS = (enc, name, ls, size) => Buffer.concat([L1('=ybegin line=' + ls + ' size=' + size + ' name='), Buffer.from(clean(name), enc), L1('\r\n')]);
const footS = (n, crc) => L1('\r\n=yend size=' + n + ' crc32=' + hex(crc));
const headP = (enc, name, ls, size, part, parts, pos, n) => Buffer.concat([L1('=ybegin part=' + part + ' total=' + parts + ' line=' + ls + ' size=' + size + ' name='), Buffer.from(clean(name), enc), L1('\r\n=ypart begin=' + (pos + 1) + ' end=' + (pos + n) + '\r\n')]);
const footP = (n, part, crc, last, f) => L1('\r\n=yend size=' + n + ' part=' + part + ' pcrc32=' + hex(crc) + (last ? ' crc32=' + hex(f) : ''));

// ---------------------------------------------------------------- inputs
function bytes(g) {
	const n = g.pick([0, 0, 1, 1, 2, 3, g.n(20), g.n(20), g.n(200), g.n(600)]), b = Buffer.alloc(n); C.genEncData(g, n, b); return b;
}
const CH = { utf8: ['a', 'Z', '0', ' ', '.', '=', '"', '\t', '\\', '%', 'é', 'ß', '\xa0', '\u0800', '€', '漢', '\ufeff', '\uffff', '😀', '\u{10ffff}', '\ud800', '\udc00', '\x7f', '\x80', '\u07ff', '\x01', '\x1b', '\u2028'], latin1: ['a', 'Z', '0', ' ', '.', '=', '"', '\t', 'é', '\xa0', '\xff', '\x80', '\x7f', '\x01', '\x85'] };
function name(g, enc) {
	const k = g.n(12), cs = CH[enc];
	if (k < 3) return g.pick(['a', 'bytes.bin', 'file name (1/2).rar', '', ' ', '=yend size=3', 'name=x size=4', '.', '..', '=', '"q"', 'a  b']);
	let n = k < 7 ? g.r(1, 12) : k < 9 ? g.r(250, 262) : k < 10 ? g.r(256, 600) : g.r(1, 40), s = '';
	const bad = g.pick([0, 0, 0.05, 0.3]), plain = g.p(0.4);
	for (let i = 0; i < n; i++) s += g.p(bad) ? g.pick(['\r', '\n', '\0', '\r\n', '\r\n.\r\n', '\n\0\r']) : plain ? String.fromCharCode(97 + g.n(26)) : g.pick(cs);
	return s;
}
// the same bytes in another form Buffer.from accepts; strings are taken as UTF-8
function form(g, data) {
	switch (g.n(11)) {
		case 0: return g.p(0.5) ? Array.from(data) : Array.from(data, (b, i) => [b, b - 256, b + 0.75, String(b), b - 4096 * 256, b + 4294967296][i % 6]);
		case 1: return new Uint8Array(data);
		case 2: { const a = new ArrayBuffer(data.length); Buffer.from(a).set(data); return a; }
		case 3: { const s = data.toString('utf8'); return s; }
		case 4: return Uint8Array.from(data).subarray(0, data.length);
		case 5: return Array.from(data, (b, i) => b + 256 * (i % 3));
		case 6: return { type: 'Buffer', data: Array.from(data) };
		case 7: return data.toString('latin1');
		case 8: { // other views, whose elements are truncated, and things like arrays and strings
			const k = g.n(9), A = [Uint16Array, Int16Array, Uint32Array, Int32Array, Float64Array, Float32Array, Int8Array, Uint8ClampedArray][k];
			if (A) { const a = new A(data.length + 2); for (let i = 0; i < data.length; i++) a[i + 1] = k < 4 ? data[i] - 256 * (i % 2) : data[i]; return a.subarray(1, data.length + 1); }
			return g.pick([() => { const a = new SharedArrayBuffer(data.length); Buffer.from(a).set(data); return a; }, () => Object.assign({ length: data.length }, Array.from(data)), () => new String(data.toString('utf8')),
				() => ({ valueOf: () => data }), () => ({ [Symbol.toPrimitive]: () => data.toString('latin1') }), () => (function () { return arguments; }).apply(null, data)])();
		}
		default: return data;
	}
}
const LS = g => g.pick([undefined, 0, null, 128, 128, 1, 2, 3, 10, 64, 127, 129, 256, 997, 100000]);

const NAMES = { utf8: ['utf8', 'utf8', 'utf-8', 'UTF-8', 'UTF8'], latin1: ['latin1', 'latin1', 'binary', 'ascii', 'LATIN1'] };   // other names of the encodings; ascii writes what latin1 does
const aka = enc => NAMES[enc][rec.evaluations % 5];
// ---------------------------------------------------------------- post
function doPost(nm, d, ls, enc) {
	const data = Buffer.isBuffer(d) ? d : Buffer.from(d), before = Buffer.from(data), L = ls || 128;
	rec.evaluations++;
	const mk = x => Object.assign({ op: 'post', enc, name: units(nm), data: B(before), ls: L }, x);
	calling(() => mk({}));
	let out; y.encoding = aka(enc); const post = y.post;
	try { out = ls === undefined ? y.post(nm, d) : rec.evaluations % 3 ? y.post(nm, d, ls) : post(nm, d, ls); }
	catch (e) { mismatch(mk({ failed: 'threw ' + e.message })); return null; }
	finally { y.encoding = 'utf8'; }
	if (!Buffer.isBuffer(out)) { mismatch(mk({ failed: 'not a Buffer' })); return null; }
	if (Buffer.isBuffer(d) && !same(d, before)) { mismatch(mk({ failed: 'data modified' })); return null; }
	const ref = Buffer.concat([headS(enc, nm, L, data.length), encodeRef(before, L, 0), footS(data.length, crcRef(before))]);
	if (!same(out, ref)) mismatch(mk({ out: B(out) }));
	else if (due()) sample(() => mk({ out: B(out) }));
	return out;
}

// ---------------------------------------------------------------- multi_post histories
// datas: list of {d: argument, want: expected verdict (optional)}
function history(nm, size, parts, ls, enc, datas, tree) {
	const L = ls || 128, calls = [], e = { op: 'multi', enc, name: units(nm), size: digits(size), parts: parts > 1 ? parts : parts === 1 ? 1 : 0, ls: L };
	rec.evaluations++;
	const ev = x => Object.assign({}, e, { calls }, x);
	calling(() => Object.assign({ lens: datas.map(x => x.length) }, e));
	let m, ok = true, failed = null; y.encoding = aka(enc); const multi_post = y.multi_post;
	try { m = ls === undefined ? y.multi_post(nm, size, parts) : rec.evaluations % 3 ? y.multi_post(nm, size, parts, ls) : multi_post(nm, size, parts, ls); } catch (er) { mismatch(ev({ failed: 'threw ' + er.message })); return; }
	finally { y.encoding = 'utf8'; }
	const vis = () => ({ part: m.part, pos: Number.isSafeInteger(m.pos) && m.pos >= 0 ? digits(m.pos) : [-1], crc: Buffer.isBuffer(m.crc) && m.crc.length === 4 ? split16(m.crc) : [-1, -1] });
	e.start = vis();
	const P1 = parts > 1 ? parts : 1, st = { part: 0, pos: 0, crc: 0, all: [] };
	const arts = [];
	for (const d of datas) {
		const data = Buffer.isBuffer(d) ? d : Buffer.from(d), n = data.length;
		const v = st.part >= P1 ? 'exhausted' : st.pos + n > size ? 'toolong' : st.part + 1 === P1 && st.pos + n !== size ? 'wrongtotal' : 'ok';
		count(v);
		if (tree) { const t = tree.shift(); if (t !== v) throw new Error('filter disagrees with the specification: ' + t + ' ' + v); }
		let out = null, err = null; const was = Buffer.from(data);
		try { out = m.encode(d); } catch (er) { err = er; }
		const c = Object.assign({ data: B(data), ok: err === null }, vis());
		if (err === null) { if (!Buffer.isBuffer(out)) failed = 'encode returned no Buffer'; else c.out = B(out); }
		else if (!(err instanceof Error)) failed = 'threw something not an Error';
		calls.push(c);
		if (!same(data, was)) failed = 'data modified';
		if (m.size !== size || m.parts !== parts || m.line_size !== L) failed = 'size, parts or line_size changed';
		if ((v === 'ok') !== c.ok) { ok = false; break; }
		if (v === 'ok') {
			const crc = crcRef(data), part = st.part + 1; st.all.push(data);
			const full = crcRef(data, st.crc), last = part === P1;
			const ref = parts > 1 ? Buffer.concat([headP(enc, nm, L, size, part, parts, st.pos, n), encodeRef(data, L, 0), footP(n, part, crc, last, full)])
				: Buffer.concat([headS(enc, nm, L, size), encodeRef(data, L, 0), footS(n, crc)]);
			if (!same(out, ref)) ok = false;
			arts.push({ art: out, ref, data, part, pos: st.pos, last });
			st.part++; st.pos += n; st.crc = full;
		}
		if (c.part !== st.part || m.pos !== st.pos || !Buffer.isBuffer(m.crc) || m.crc.readUInt32BE(0) !== st.crc) ok = false;
		if (!ok || failed) break;
	}
	if (ok && !failed && arts.some(a => !same(a.art, a.ref))) failed = 'an article changed after it was returned';
	if (failed) mismatch(ev({ failed })); else if (!ok) mismatch(ev({}));
	else if (due()) sample(() => ev({}));
	return arts;
}
const fill = (len, s) => { const b = Buffer.alloc(len); for (let i = 0; i < len; i++) b[i] = [4, 214, 65, 19, 223][(i + s) % 5]; return b; };

const jobs = {
	posts() { const g = new Rng(P.seed); for (let k = 0; k < N; k++) { const enc = g.p(0.75) ? 'utf8' : 'latin1'; doPost(name(g, enc), form(g, bytes(g)), LS(g), enc); } },
	names() { // every single character, at both ends and around the length limit
		for (const enc of ['utf8', 'latin1']) {
			const top = enc === 'utf8' ? 0x10000 : 256, step = enc === 'utf8' && P.step || 1, d = L1('x');
			for (let c = 0; c < top; c += c < 0x900 ? 1 : step) doPost(String.fromCharCode(c) + 'q' + String.fromCharCode(c), d, undefined, enc);
			for (let n = 250; n < 262; n++) for (const c of enc === 'utf8' ? ['a', 'é', '漢', '😀', '\n', '\0'] : ['a', 'é', '\r']) { doPost('b'.repeat(n) + c + 'tail', d, 64, enc); doPost(c.repeat(n), d, 64, enc); doPost(c + 'b'.repeat(n) + c, d, 64, enc); }
		}
		const top = P.step ? 0x10000 + P.step * 64 : 0x110000;
		for (let c = 0x10000; c < top; c += 61) doPost(String.fromCodePoint(c), L1('y'), 3, 'utf8');
	},
	behaviours() { // every behaviour TLC enumerates
		const roots = JSON.parse(fs.readFileSync(P.behaviours, 'utf8')); let k = 0;
		for (const r of roots) {
			const walk = (n, lens, vs) => {
				if (!n.length) { if (P.of && k++ % P.of !== P.part) return; history('f', r.size, r.parts, [1, 3, 128][k % 3], 'utf8', lens.map((l, i) => fill(l, i + k)), vs.slice()); return; }
				for (const x of n) walk(x.n, lens.concat(x.l), vs.concat(x.v));
			};
			walk(r.n, [], []);
		}
	},
	histories() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const parts = g.p(0.02) ? g.pick([99, 100, 101, 256, g.r(30, 300)]) : g.pick([0, 1, 1, 2, 2, 3, 4, 5, 9, 10, 11, g.r(2, 30)]), P1 = Math.max(1, parts), ps = g.pick([0, 1, 3, 10, 50, 128]), ds = [];
			let size = 0;
			for (let i = 0; i < P1; i++) { const d = Buffer.alloc(g.p(0.8) ? ps : g.n(2 * ps + 2)); C.genEncData(g, d.length, d); ds.push(d); size += d.length; }
			const plan = [];                       // the right calls, with wrong ones thrown in
			const wrong = g.pick([0, 0, 0.1, 0.4]);
			for (const d of ds) { while (g.p(wrong)) plan.push(g.pick([Buffer.alloc(size + 1 + g.n(3), 65), fill(g.n(ps + 3), 1), Buffer.alloc(0), fill(Math.max(0, d.length + g.r(-1, 1)), 2), fill(size, 3)])); plan.push(g.p(0.8) ? d : form(g, d)); }
			for (let x = g.n(3); x > 0; x--) plan.push(fill(g.n(3), 0));
			if (g.p(0.15)) size = g.pick([0, size + 1, Math.max(0, size - 1), 4294967296, 9007199254740991, 2147483648, 1e15]);
			history(name(g, 'utf8'), size, parts, LS(g), 'utf8', plan);
		}
	},
	many() { // histories of very many parts: every article and the state after every call compared with the reference, single steps judged by TLC
		const nm = 'many parts.bin', g = new Rng(P.seed), e0 = { op: 'step', enc: 'utf8', name: units(nm) };
		for (const parts of P.parts) {
			const ls = g.pick([128, 1, 2, 64]), off = g.pick([0, 1, 255]), size = parts + off, e = Object.assign({ parts, size: digits(size), ls }, e0), m = y.multi_post(nm, size, parts, ls), D = [65, 214, 4, 223, 0].map(c => { const d = Buffer.from([c]); return [d, encodeRef(d, ls, 0), crcRef(d)]; });
			let st = { part: 0, pos: 0, crc: 0 };
			for (let part = 1; part <= parts; part++) {
				rec.evaluations++;
				let [d, body, dc] = D[g.n(5)]; if (part === 1 && off) { d = Buffer.alloc(1 + off, 66); body = encodeRef(d, ls, 0); dc = crcRef(d); }
				const was = { part: st.part, pos: digits(st.pos), crc: split16n(st.crc) };
				let out = null; try { out = m.encode(d); } catch (er) {}
				const mk = () => Object.assign({}, e, { st: was, call: Object.assign({ data: B(d), ok: out !== null, part: m.part, pos: Number.isSafeInteger(m.pos) && m.pos >= 0 ? digits(m.pos) : [-1], crc: Buffer.isBuffer(m.crc) && m.crc.length === 4 ? split16(m.crc) : [-1, -1] }, out ? { out: B(out) } : {}) });
				const full = crcRef(d, st.crc), ref = Buffer.concat([headP('utf8', nm, ls, size, part, parts, st.pos, d.length), body, footP(d.length, part, dc, part === parts, full)]);
				st = { part, pos: st.pos + d.length, crc: full };
				if (!same(out, ref) || m.part !== part || m.pos !== st.pos || m.crc.readUInt32BE(0) !== full || m.parts !== parts || m.size !== size || m.line_size !== ls) { mismatch(mk()); break; }
				if (due() || part === parts) sample(mk);
			}
		}
	},
	single() { // multi_post with at most one part is post
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const enc = g.p(0.8) ? 'utf8' : 'latin1', d = bytes(g), ls = LS(g), nm = name(g, enc), a = doPost(nm, d, ls, enc);
			const bad = g.p(0.3) ? [Buffer.alloc(d.length + 1)] : [];
			const r = history(nm, d.length, g.n(2), ls, enc, bad.concat([d], g.p(0.3) ? [d] : []));
			if (a && r && r[0] && !same(r[0].art, a)) mismatch({ op: 'post', failed: 'multi_post with one part differs from post', name: units(nm), data: B(d), ls: ls || 128 });
		}
	},
	big() { // positions, sizes and CRCs beyond 31 and 32 bits
		const zlib = require('zlib'), buf = Buffer.alloc(P.chunk || 300000000, 'some ordinary text, nothing to escape '), odd = Buffer.from('tail\0');
		const dcrc = zlib.crc32(buf), ocrc = zlib.crc32(odd), bodyB = y.encode(buf, 256), bodyO = y.encode(odd, 256), reps = P.reps || 15;
		const size = reps * buf.length + odd.length, nm = 'big', e = { op: 'multi', enc: 'utf8', name: units(nm), size: digits(size), parts: reps + 1, ls: 256, calls: [] };
		const m = y.multi_post(nm, size, reps + 1, 256);
		const vis = () => ({ part: m.part, pos: digits(m.pos), crc: split16(m.crc) }); e.start = vis();
		const go = (d, crc, body) => {
			rec.evaluations++;
			let out = null; try { out = m.encode(d); } catch (er) { out = null; }
			const c = Object.assign({ len: digits(d.length), dcrc: [crc >>> 16, crc & 65535], ok: out !== null }, vis());
			if (out) { const h = out.indexOf('\r\n', out.indexOf('\r\n') + 2) + 2, f = out.lastIndexOf('\r\n=yend '); c.head = B(out.subarray(0, h)); c.foot = B(out.subarray(f)); c.body = same(out.subarray(h, f), body); }
			e.calls.push(c);
		};
		for (let k = 0; k < reps; k++) { go(buf, dcrc, bodyB); if (k === reps - 1) go(buf, dcrc, bodyB); }
		go(Buffer.from('tail'), zlib.crc32('tail'), bodyO); go(odd, ocrc, bodyO); go(odd, ocrc, bodyO);
		rec.samples.push(e);
	},
	huge() { // parts of 2 GiB and more in every place: lengths, positions and CRC joins beyond 31 and 32 bits
		const zlib = require('zlib'), U = 'nothing to escape in here at all', len = 2147483648 + 5, ls = 1000000, buf = Buffer.alloc(len, U), body = Buffer.alloc(1000000, Buffer.from(U).map(b => b + 42));
		let crc = 0; for (let i = 0; i < len; i += 1 << 28) crc = zlib.crc32(buf.subarray(i, Math.min(len, i + (1 << 28))), crc);
		const bodyOk = b => { // lines of 1000000, a multiple of the text's period
			if (b.length !== len + 2 * (Math.ceil(len / ls) - 1)) return false;
			for (let i = 0, p = 0; i < len; i += ls, p += ls + 2) { const n = Math.min(ls, len - i); if (Buffer.compare(b.subarray(p, p + n), body.subarray(0, n)) || i + n < len && b.readUInt16BE(p + n) !== 0x0d0a) return false; }
			return true;
		};
		const small = Buffer.from('abc'), sbody = encodeRef(small, ls, 0);
		for (const seq of P.seqs || [[0, 1]]) {
			const size = seq.reduce((a, q) => a + (q ? len : 3), 0), nm = 'huge', m = y.multi_post(nm, size, seq.length, ls);
			const e = { op: 'multi', enc: 'utf8', name: units(nm), size: digits(size), parts: seq.length > 1 ? seq.length : 1, ls, calls: [] }, vis = () => ({ part: m.part, pos: Number.isSafeInteger(m.pos) && m.pos >= 0 ? digits(m.pos) : [-1], crc: split16(m.crc) });
			e.start = vis();
			for (const q of seq) {
				rec.evaluations++; calling(() => Object.assign({}, e));
				const d = q ? buf : small, dc = q ? crc : crcRef(small); let out = null;
				try { out = m.encode(d); } catch (er) { out = null; }
				const c = Object.assign({ len: digits(d.length), dcrc: split16n(dc), ok: out !== null }, vis());
				if (out) { const h = out.indexOf('\r\n', seq.length > 1 ? out.indexOf('\r\n') + 2 : 0) + 2, f = out.subarray(out.length - 200 < h ? h : out.length - 200).lastIndexOf('\r\n=yend ') + (out.length - 200 < h ? h : out.length - 200); c.head = B(out.subarray(0, h)); c.foot = B(out.subarray(f)); c.body = q ? bodyOk(out.subarray(h, f)) : same(out.subarray(h, f), sbody); }
				e.calls.push(c); out = null;
			}
			rec.samples.push(e);
		}
	},
	starved() { // calls that cannot get the memory they need are as if not made, and succeed once there is memory
		const G = require(P.guard), n = 128 << 20, ls = 4096, small = Buffer.from('small\0'), plain = Buffer.alloc(n, 65), esc = Buffer.alloc(n, 214), nm = 'starved';
		const D = [small, plain, esc].map(d => ({ d, crc: crcRef(d), body: y.encode(d, ls) }));
		if (!same(D[0].body, encodeRef(small, ls, 0))) { mismatch({ op: 'multi', failed: 'encode is wrong' }); return; }
		// [which data, limit as a multiple of its size, if any]; all escaped: there is memory to encode it, but not for the article
		for (const seq of [[[1, 0.75], [1, 0], [1, 0]], [[2, 3], [2, 0.75], [2, 0], [2, 0.75]], [[1, 0.75], [0, 0], [1, 0.75], [1, 0.75], [1, 0], [2, 3], [2, 0.75], [0, 0], [2, 0], [0, 0]], [[2, 3], [2, 0.75], [2, 0], [1, 0.75], [1, 0], [1, 0.75]]]) {
			const use = seq.length > 6 ? [0, 1, 2] : seq.length > 4 ? [2, 1] : [seq[0][0]], size = use.reduce((a, i) => a + D[i].d.length, 0), parts = use.length;
			const m = y.multi_post(nm, size, parts, ls), e = { op: 'multi', enc: 'utf8', name: units(nm), size: digits(size), parts, ls, calls: [] }, vis = () => ({ part: m.part, pos: Number.isSafeInteger(m.pos) && m.pos >= 0 ? digits(m.pos) : [-1], crc: Buffer.isBuffer(m.crc) && m.crc.length === 4 ? split16(m.crc) : [-1, -1] });
			e.start = vis();
			for (const [i, lim] of seq) {
				rec.evaluations++; calling(() => Object.assign({}, e));
				const { d, crc, body } = D[i]; let out = null, er = null;
				if (lim) G.limit(Math.floor(lim * n));
				try { out = m.encode(d); } catch (x) { er = x; }
				if (lim) G.limit(-1);
				if (er && !(er instanceof Error)) { mismatch(Object.assign({ failed: 'threw something not an Error' }, e)); break; }
				const c = Object.assign({ len: digits(d.length), dcrc: split16n(crc), ok: out !== null, why: er && String(er.message) || '' }, vis()); if (lim) { c.starved = true; count(out ? 'not starved' : 'starved'); }
				if (out) { const h = out.indexOf('\r\n', parts > 1 ? out.indexOf('\r\n') + 2 : 0) + 2, g = Math.max(h, out.length - 200), f = out.subarray(g).lastIndexOf('\r\n=yend ') + g; c.head = B(out.subarray(0, h)); c.foot = B(out.subarray(f)); c.body = same(out.subarray(h, f), body); }
				e.calls.push(c);
			}
			rec.samples.push(e);
		}
	},
	bulk() { // whole articles of up to several megabytes, compared byte by byte with the reference
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const kk = 1 << g.r(12, 21), ls = g.pick([128, 128, 128, undefined, 1, 64, 100, 254, 997, 65536, 70000, 100000, 2147483648, 4294967296 + 64, Number.MAX_SAFE_INTEGER]), L = ls || 128, nm = 'n' + k;
			const len = () => { const n = g.pick([g.n(70000), kk + g.r(-2, 2), kk + g.r(0, 300), g.n(P.max || 1500000), g.p(0.1) ? 4194304 + g.n(9) : 3 * kk + g.n(5)]); return Math.max(0, Math.min(n, 4300000)); };
			const data = () => { const d = Buffer.alloc(len()); C.genEncData(g, d.length, d); return d; };
			const e = { op: 'post', bulk: true, ls: L, name: units(nm) }, bad = (why, x) => mismatch(Object.assign({ failed: why }, e, x));
			rec.evaluations++; calling(() => e);
			if (g.p(0.5)) {
				const d = data(), was = Buffer.from(d), x = { n: d.length, seed: P.seed, round: k };
				let out; try { out = y.post(nm, d, ls); } catch (er) { bad('threw ' + er.message, x); continue; }
				if (!same(d, was)) bad('data modified', x);
				else if (!same(out, Buffer.concat([headS('utf8', nm, L, d.length), encodeRef(d, L, 0), footS(d.length, crcRef(d))]))) bad('article differs', x);
			} else {
				const ds = [data(), data(), data()], size = ds.reduce((a, d) => a + d.length, 0), m = y.multi_post(nm, size, 3, ls), outs = []; let pos = 0, full = 0;
				e.op = 'multi';
				ds.forEach((d, i) => {
					const was = Buffer.from(d), x = { lens: ds.map(d => d.length), part: i + 1, seed: P.seed, round: k };
					let out; try { out = m.encode(d); } catch (er) { bad('threw ' + er.message, x); return; }
					full = crcRef(d, full);
					const ref = Buffer.concat([headP('utf8', nm, L, size, i + 1, 3, pos, d.length), encodeRef(d, L, 0), footP(d.length, i + 1, crcRef(d), i === 2, full)]);
					pos += d.length; outs.push([out, ref]);
					if (!same(d, was)) bad('data modified', x);
					else if (!same(out, ref)) bad('article differs', x);
					else if (m.pos !== pos || m.part !== i + 1 || m.crc.readUInt32BE(0) !== full) bad('state differs', x);
				});
				if (outs.some(([a, b]) => !same(a, b))) bad('an article changed after it was returned', { seed: P.seed, round: k });
			}
		}
	},
	large() { // articles and surroundings far larger than TLC can judge: known contents come back, damage is reported
		const g = new Rng(P.seed), line = 'Lorem ipsum =y dolor = yend sit .amet\r\n';
		for (let k = 0; k < N; k++) {
			const n = g.pick([g.r(1, 300), g.r(1000, 70000), g.r(60000, 70000), g.r(100000, P.max || 1200000)]), data = Buffer.alloc(n); C.genEncData(g, n, data);
			const pre = line.repeat(g.pick([0, 0, 1, g.n(300), g.n(30000)])), post = line.repeat(g.pick([0, 0, 1, g.n(300), g.n(30000)])), ls = LS(g);
			const multi = g.p(0.5), off = multi ? g.pick([1, g.n(5000), g.n(3e6)]) : 0, zeros = Buffer.alloc(off, 66);
			let art;
			if (multi && off) { const m = y.multi_post('n', off + n + 5, 3, ls); m.encode(zeros); art = m.encode(data); } else art = y.post('n', data, ls);
			const raw = g.p(0.5), h = art.indexOf('\r\n', multi && off ? art.indexOf('\r\n') + 2 : 0) + 2, f = art.lastIndexOf('\r\n=yend');
			let body = art.subarray(h, f); if (raw && body[0] === 46) body = Buffer.concat([L1('.'), body]);
			const foot = Buffer.from(art.subarray(f)), crc = crcRef(data);
			let damaged = false, lenDiff = false;
			if (P.damage) {
				body = Buffer.from(body); const p = g.pick([0, body.length - 1, g.n(body.length), g.n(body.length)]);
				if (g.p(0.5)) body[p] = body[p] ^ (1 << g.n(8)); else body = g.p(0.5) ? Buffer.concat([body.subarray(0, p), body.subarray(p + 1)]) : Buffer.concat([body.subarray(0, p), L1('A'), body.subarray(p)]);
				if (g.p(0.3)) { const q = g.n(foot.length); foot.latin1Write(foot.latin1Slice().replace(/crc32=[0-9a-f]{8}/g, x => g.p(0.7) ? 'crc32=' + x.slice(6).toUpperCase() : x)); }
			}
			const whole = Buffer.concat([L1(pre), art.subarray(0, h), body, foot, L1('\r\n'), L1(post)]);
			let want = data;
			if (P.damage) {
				if (/\r\n=yend /.test(body.latin1Slice(0)) || body.subarray(0, 2).latin1Slice() === '=y') continue;
				want = C.decodeRef(raw ? 'raw' : 'plain', body).o; damaged = crcRef(want) !== crc; lenDiff = want.length !== n;
			}
			rec.evaluations++;
			const bad = why => mismatch({ op: 'reparse', failed: why, n, ls: ls || 128, raw, pre: pre.length, post: post.length, multi, off, damage: !!P.damage, round: k });
			const before = Buffer.from(whole);
			let r; try { r = y.from_post(whole, raw); } catch (er) { bad('threw ' + er.message); continue; }
			if (r instanceof Error) { bad('error ' + r.code); continue; }
			const ws = (r.warnings || []).map(w => w.code).sort().join(), exp = [].concat(damaged ? [multi && off ? 'pcrc32_mismatch' : 'crc32_mismatch'] : [], lenDiff ? ['data_size_mismatch'] : []).sort().join();
			count(exp || 'clean');
			if (!same(whole, before)) bad('input modified');
			else if (r.yencStart !== pre.length) bad('yencStart ' + r.yencStart);
			else if (r.dataStart !== pre.length + h || r.dataEnd !== pre.length + h + body.length || r.yencEnd !== whole.length - post.length) bad('offsets');
			else if (!same(r.data, want)) bad('data differs');
			else if (r.crc32.readUInt32BE(0) !== crcRef(want)) bad('crc32 differs');
			else if (ws !== exp) bad('warnings ' + ws + ' instead of ' + exp);
			else if (r.props.begin.size !== String(multi && off ? off + n + 5 : n) || r.props.end.size !== String(n) || r.props.begin.name !== 'n' || r.props.begin.line !== String(ls || 128)) bad('properties');
		}
	},
	reparse() { // generated articles, parsed back
		const g = new Rng(P.seed);
		const parse = (art, data, want, enc) => {
			const raw = g.p(0.6); let a = Buffer.concat([art, L1('\r\n')]);
			const pre = g.p(0.4) ? g.pick(['\r\n', 'From: x\r\nSubject: [1/2] "a" yEnc (1/2)\r\n\r\n', 'text before\r\n.\r\n=ybegi\r\n', '=yend size=1\r\n', '=y\r\n..\r\n', 'é€\r\n']) : '';
			const post = g.p(0.4) ? g.pick(['.\r\n', 'trailing\r\n', '=yen\r\n', '=y\r\n', '\r\n\r\n=ybegin line=1 size=1 name=x\r\nk', '\r\n.', 'x=yend size=3']) : '';
			if (raw) { let s = a.toString('latin1').replace(/^\.|\r\n\./g, x => x + '.'); a = L1(s); }
			a = Buffer.concat([Buffer.from(pre, 'utf8'), a, Buffer.from(post, 'utf8')]);
			// what has to come back, exactly; TLC judges everything that differs, and a selection of the rest
			const W = want.map(([t, ps]) => [Array.from(L1(t)), ps.map(([k, v]) => [Array.from(L1(k)), Array.from(Buffer.isBuffer(v) ? v : L1(String(v)))])]);
			const start = Buffer.byteLength(pre), ds = a.indexOf('\r\n', want[1][0] === 'part' ? a.indexOf('\r\n', start) + 2 : start) + 2, ye = a.length - Buffer.byteLength(post), crc = split16n(crcRef(data));
			return run(a, raw, { data: P.files && data.length > 2000 ? [] : B(data), want: W }, enc, e => {
				const r = e.res, good = r.error === '' && !r.warnings.length && r.yencStart === start && r.dataStart === ds && r.yencEnd === ye && r.crc[0] === crc[0] && r.crc[1] === crc[1]
					&& same(Buffer.from(r.data), data) && JSON.stringify(r.props) === JSON.stringify(W);
				if (good && !due()) return false;
				if (good) { if (rec.sampleBytes + a.length * 3 > (P.sampleBytes || 3000)) return false; rec.sampleBytes += a.length * 3; }
				return true;
			});
		};
		for (let k = 0; k < N; k++) {
			const enc = g.p(0.8) ? 'utf8' : 'latin1'; let nm = name(g, enc); if (clean(nm) !== clean(nm).trimEnd()) nm = 'n' + k;
			const nb = Buffer.from(clean(nm), enc), ls = LS(g), L = ls || 128;
			let data = bytes(g); if (data.length === 0) data = L1('.');
			if (g.p(0.3)) data[0] = 4;
			y.encoding = enc;
			let art;
			if (g.p(0.4)) {
				try { art = g.p(0.5) ? y.post(nm, data, ls) : y.multi_post(nm, data.length, g.n(2), ls).encode(data); } catch (er) { rec.samples.push({ op: 'reparse', failed: 'post threw ' + er.message }); continue; }
				parse(art, data, [['begin', [['line', L], ['size', data.length], ['name', nb]]], ['end', [['size', data.length], ['crc32', hex(crcRef(data))]]]], enc);
			} else {
				const parts = g.p(0.93) ? g.r(2, Math.max(2, Math.min(data.length, 6))) : g.p(0.8) ? g.r(9, 13) : g.pick([99, 100, 101, 128, g.r(7, 250)]);
				if (data.length < parts) { if (parts < 9) continue; data = Buffer.alloc(parts + g.n(90)); C.genEncData(g, data.length, data); }
				const cuts = new Set(); while (cuts.size < parts - 1) cuts.add(g.r(1, data.length - 1));
				const cs = [0, ...Array.from(cuts).sort((a, b) => a - b), data.length], list = [], m = y.multi_post(nm, data.length, parts, ls);
				let acc = Buffer.alloc(4), fine = true;
				for (let i = 0; i < parts; i++) {
					const d = data.subarray(cs[i], cs[i + 1]);
					try { art = m.encode(d); } catch (er) { rec.samples.push({ op: 'reparse', failed: 'encode threw ' + er.message }); fine = false; break; }
					const end = [['size', d.length], ['part', i + 1], ['pcrc32', hex(crcRef(d))]]; if (i === parts - 1) end.push(['crc32', hex(crcRef(data))]);
					const e = parse(art, d, [['begin', [['part', i + 1], ['total', parts], ['line', L], ['size', data.length], ['name', nb]]], ['part', [['begin', cs[i] + 1], ['end', cs[i + 1]]]], ['end', end]], enc);
					y.encoding = enc;
					const get = (t, q) => { const T0 = e.res && e.res.props && e.res.props.find(z => Buffer.from(z[0]).toString() === t), p = T0 && T0[1].find(z => Buffer.from(z[0]).toString() === q); return p ? p[1] : []; };
					list.push({ begin: get('part', 'begin'), end: get('part', 'end'), data: e.res && e.res.data || [], pcrc: get('end', 'pcrc32'), crc: get('end', 'crc32') });
					const pc = Buffer.from(Buffer.from(get('end', 'pcrc32')).toString(), 'hex'); if (pc.length === 4) acc = y.crc32_combine(acc, pc, d.length);
				}
				if (fine) { rec.evaluations++; rec.fileEvents = (rec.fileEvents || []); rec.fileEvents.push({ op: 'file', file: B(data), parts: list, combined: split16(acc) }); }
			}
			y.encoding = 'utf8';
		}
		if (P.files) rec.samples = rec.fileEvents || [];
	},
};
main(jobs);
