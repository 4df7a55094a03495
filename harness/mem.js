'use strict';
// Which memory calls touch (C11): recorded accesses of a traced build, Buffers against inaccessible pages, canaries, retained results.
const C = require('./common.js');
const { P, y, Rng, B, rec, sample, due, mismatch, count, calling, main, encodeRef, genEncData, genDecData, lenOf } = C;
const G = P.guard ? require(P.guard) : null;
const N = P.n || 1, PAGE = 4096;
const same = (a, b) => Buffer.compare(a, b) === 0;

// ---------------------------------------------------------------- calls
// {fn, n, data, ls, col, strip, state, out, insitu, ins: all input Buffers}
const FNS = ['encode', 'encode', 'encodeTo', 'encodeTo', 'encodeTo', 'decode', 'decodeTo', 'decodeTo', 'decodeTo', 'decodeChunk', 'decodeChunk', 'decodeChunk', 'crc32', 'crc32', 'crc32_combine', 'crc32_zeroes', 'crc32_multiply', 'crc32_shift'];
const STATES = ['', '=', '\r', '\r\n', '\r\n.', '\r\n.\r', '\r\n='];
const LS = [1, 2, 3, 10, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 128, 128, 129, 255, 256, 997, 0];
function invoke(c) {
	switch (c.fn) {
		case 'encode': return y.encode(c.data, c.ls, c.col);
		case 'encodeTo': return y.encodeTo(c.data, c.out, c.ls, c.col);
		case 'decode': return y.decode(c.data, c.strip);
		case 'decodeTo': return y.decodeTo(c.data, c.out, c.strip);
		case 'decodeChunk': return c.out ? y.decodeChunk(c.data, c.state, c.out) : y.decodeChunk(c.data, c.state);
		case 'crc32': return c.init ? y.crc32(c.data, c.init) : y.crc32(c.data);
		case 'crc32_combine': return y.crc32_combine(c.data, c.init, c.k);
		case 'crc32_zeroes': return c.data ? y.crc32_zeroes(c.k, c.data) : y.crc32_zeroes(c.k);
		case 'crc32_shift': return c.data ? y.crc32_shift(c.k, c.data) : y.crc32_shift(c.k);
		case 'crc32_multiply': return y.crc32_multiply(c.data, c.init);
	}
}
// alloc(n) -> Buffer for an input; allocOut(n) -> Buffer for an output; copy: how to fill
function makeCall(g, fn, n, alloc, allocOut, opt) {
	const c = { fn, ls: 0, col: 0, strip: false, state: '', insitu: false, out: null, init: null, data: null, k: 0, max: 0, rejected: false };
	const fill = b => { if (fn === 'encode' || fn === 'encodeTo') genEncData(g, b.length, b); else if (fn[0] === 'd') genDecData(g, b.length, b, g.p(0.2) ? 0.05 : 0); else for (let i = 0; i < b.length; i++) b[i] = g.u(); return b; };
	if (/^crc32_/.test(fn)) {
		n = 4;
		if (fn === 'crc32_combine' || fn === 'crc32_multiply' || g.p(0.8)) c.data = fill(alloc(4));
		if (fn === 'crc32_combine' || fn === 'crc32_multiply') c.init = fill(alloc(4));
		for (const b of [c.data, c.init]) if (b && g.p(0.3)) b.fill(g.pick([0, 0, 255])); if (c.data && g.p(0.1)) c.data.writeUInt32BE(0x80000000, 0); if (c.init && g.p(0.1)) c.init.writeUInt32BE(0x80000000, 0);   // values that change nothing
		c.k = g.pick([0, 0, 1, 5, 1000, 4294967296, 1099511627776]); if (fn !== 'crc32_combine' && g.p(0.4)) c.k = -c.k;
	} else {
		c.data = fill(alloc(n));
		if (fn === 'crc32' && g.p(0.5)) c.init = fill(alloc(4));
		c.ls = g.pick(LS); const L = c.ls || 128; c.col = g.p(0.6) ? 0 : g.n(L + 1);
		c.strip = g.p(0.5); c.state = g.pick(STATES);
		if (fn === 'encodeTo') { c.max = y.maxSize(n, c.ls); const short = opt.reject && c.max > 0 && g.p(0.15); c.rejected = short; c.out = allocOut(c.max + (short ? -g.r(1, Math.min(c.max, 40)) : opt.slack && g.p(0.5) ? g.r(1, 70) : 0)); }
		else if (fn === 'decodeTo' || fn === 'decodeChunk') {
			const k = g.n(10);
			if (k < 3 && !opt.readonly) { c.insitu = true; c.out = c.data; }
			else if (k < 9 || fn === 'decodeTo') { const short = opt.reject && n > 0 && g.p(0.15); c.rejected = short; c.out = allocOut(n + (short ? -g.r(1, Math.min(n, 40)) : opt.slack && g.p(0.5) ? g.r(1, 70) : 0)); }
		}
	}
	c.n = n;
	return c;
}
const desc = c => ({ fn: c.fn, n: c.n, max: c.max, rejected: c.rejected, insitu: c.insitu });
const extra = c => ({ ls: c.ls, col: c.col, strip: c.strip, state: Array.from(Buffer.from(c.state, 'latin1')), k: String(c.k), outLen: c.out ? c.out.length : -1, data: c.data && c.data.length < 300 ? B(c.data) : [] });
const within = (iv, lo, hi) => iv[0] >= iv[1] || (iv[0] >= lo && iv[1] <= hi);
const mayRead = x => x.size ? within(x.r, -x.at, Math.ceil((x.at + x.size) / 64) * 64 - x.at) : x.r[0] >= x.r[1];
const INTO = { encodeTo: 1, decodeTo: 1, decodeChunk: 1 };
const extent = c => c.rejected || !INTO[c.fn] ? 0 : c.fn === 'encodeTo' ? c.max : c.n;
function lenMix(g) { const k = g.n(10); return k < 5 ? g.r(0, 140) : k < 8 ? g.r(100, 700) : k < 9 ? lenOf(g) : g.pick([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 4097]); }

// ---------------------------------------------------------------- recorded accesses
const M = 256;                              // margin watched around each Buffer
const arena = [0, 1, 2, 3].map(() => Buffer.alloc(1 << 20));
let arenaNext = 0;
const place = g => n => { const a = arena[arenaNext++ % 4], off = 64 * g.r(5, 40) + (g.p(0.4) ? 0 : g.n(64)); return n + off + 1000 < a.length ? a.subarray(off, off + n) : Buffer.alloc(n + 4096).subarray(1024 + off % 64, 1024 + off % 64 + n); };
const around = b => Buffer.from(b.buffer, b.byteOffset - M, b.length + 2 * M);
function access(c) {
	rec.evaluations++;
	calling(() => ({ op: 'access', call: desc(c), extra: extra(c) }));
	const ins = [c.data, c.init].filter(b => b), outs = c.out && !c.insitu ? [c.out] : [];
	let threw = false;
	G.begin.apply(null, ins.concat(outs).map(around));
	try { invoke(c); } catch (e) { threw = true; }
	const t = G.end();
	c.rejected = threw;                                        // whether it should have been is not this property's concern
	count('accesses', t[0]);
	const iv = (k, d) => { const o = 1 + 5 * k, q = (a, b) => a < b ? [a - d, b - d] : [0, 0]; return { r: q(t[o], t[o + 1]), w: q(t[o + 2], t[o + 3]), asked: t[o + 4] }; };
	const nreg = (t.length - 1) / 5, e = { op: 'access', call: desc(c), extra: extra(c), ins: [], outs: [], blocks: [] };
	ins.forEach((b, k) => { const x = iv(k, M); e.ins.push({ size: b.length, at: G.align(b), r: x.r, w: x.w }); });
	outs.forEach((b, k) => { const x = iv(ins.length + k, M); e.outs.push({ size: b.length, at: G.align(b), r: x.r, w: x.w }); });
	if (c.insitu) e.outs.push(e.ins[0]);
	for (let k = ins.length + outs.length; k < nreg; k++) { const x = iv(k, 0); e.blocks.push({ size: x.asked, r: x.r, w: x.w }); }
	const X = extent(c);
	let ok = e.ins.every(x => mayRead(x) && (c.insitu || within(x.w, 0, 0))) && e.outs.every(x => within(x.w, 0, X) && (c.insitu ? mayRead(x) : within(x.r, 0, X))) && e.blocks.every(x => within(x.r, 0, x.size) && within(x.w, 0, x.size));
	for (const x of e.outs) if (c.insitu && !within(x.w, 0, X)) ok = false;
	if (!ok) mismatch(e); else if (due()) sample(() => e);
}

// ---------------------------------------------------------------- Buffers at the edges of mapped memory
function edges(n) {
	const regs = []; // pools of regions by number of pages
	return { take(n, atEnd, g) { const pages = Math.max(1, Math.ceil(n / PAGE)); let r = null; for (const q of regs) if (q.pages === pages && !q.busy) { r = q; break; }
		if (!r) { r = { pages, buf: G.region(pages), busy: false }; regs.push(r); }
		r.busy = true; r.view = atEnd ? r.buf.subarray(r.buf.length - n) : r.buf.subarray(0, n); return r; },
	release() { for (const q of regs) if (q.busy) { if (q.ro) G.protect(q.buf, 3); q.ro = q.busy = false; } } };
}
function span(before, after, start) { // changed bytes relative to start
	let lo = 0, hi = after.length; while (lo < hi && before[lo] === after[lo]) lo++; while (hi > lo && before[hi - 1] === after[hi - 1]) hi--;
	return lo < hi ? [lo - start, hi - start] : [0, 0];
}

const jobs = {
	access() {
		if (!G.attach(P.pkg + '/build/Release/yencode.node')) throw new Error('not a traced build');
		const g = new Rng(P.seed), pl = place(g);
		for (let n = 0; n <= (P.maxLen || 300); n++) for (const fn of ['encodeTo', 'decodeTo', 'decodeChunk', 'crc32', 'encode', 'decode']) for (let k = 0; k < (P.per || 2); k++) access(makeCall(g, fn, n, pl, pl, { reject: true, slack: true }));
		for (let k = 0; k < N; k++) access(makeCall(g, g.pick(FNS), lenMix(g), pl, pl, { reject: true, slack: true }));
		if (rec.counters.accesses < 1000) throw new Error('no accesses recorded');
	},
	edge() {
		const g = new Rng(P.seed), E = edges();
		const one = (fn, n, endIn, endOut) => {
			const regs = [];
			const al = n => { const r = E.take(n, endIn, g); regs.push(r); return r.view; }, ao = n => E.take(n, endOut, g).view;
			const c = makeCall(g, fn, n, al, ao, { reject: true, slack: false, readonly: false });
			if (!c.insitu) for (const r of regs) { G.protect(r.buf, 1); r.ro = true; }
			rec.evaluations++;
			const mk = () => ({ op: 'access', where: [endIn ? 'end' : 'start', endOut ? 'end' : 'start'], call: desc(c), extra: extra(c), ins: [], outs: [], blocks: [] });
			calling(mk);
			try { invoke(c); } catch (e) { c.rejected = true; }
			if (due()) sample(mk);
			E.release();
		};
		for (let n = 0; n <= (P.maxLen || 520); n++) for (const fn of ['encodeTo', 'decodeTo', 'decodeChunk', 'crc32', 'encode', 'decode']) for (let k = 0; k < (P.per || 3); k++) one(fn, n, g.p(0.7), g.p(0.7));
		for (let k = 0; k < N; k++) one(g.pick(FNS), lenMix(g), g.p(0.7), g.p(0.7));
	},
	change() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const pl = place(g), c = makeCall(g, g.pick(FNS), lenMix(g), pl, pl, { reject: true, slack: true });
			const ins = [c.data, c.init].filter(b => b), outs = c.out ? [c.out] : [], src = Buffer.from(c.data || []);
			calling(() => ({ op: 'change', call: desc(c), extra: extra(c) }));
			const e = { op: 'change', ins: ins.map(b => ({ size: b.length, w: [0, 0] })), outs: outs.map(b => ({ size: b.length, w: [0, 0] })) };
			let threw = false;
			for (const flip of [0, 255]) { // every byte that is written differs from one of the two patterns
				rec.evaluations++;
				const pat = g.n(256);
				for (const o of outs) { const w = around(o); for (let i = 0; i < w.length; i++) if (!c.insitu || i < M || i >= w.length - M) w[i] = (pat + i * 7) & 255 ^ flip; }
				if (c.insitu) src.copy(c.data);
				const wb = ins.concat(outs).map(around), before = wb.map(b => Buffer.from(b));
				try { invoke(c); } catch (er) { threw = true; }
				const join = (x, b, k) => { const s = span(before[k], wb[k], M); if (s[0] < s[1]) x.w = x.w[0] < x.w[1] ? [Math.min(x.w[0], s[0]), Math.max(x.w[1], s[1])] : s; };
				e.ins.forEach((x, i) => join(x, ins[i], i)); e.outs.forEach((x, i) => join(x, outs[i], ins.length + i));
			}
			c.rejected = threw; e.call = desc(c); e.extra = extra(c);
			const X = extent(c);
			const ok = e.ins.every(x => within(x.w, 0, c.insitu ? X : 0)) && e.outs.every(x => within(x.w, 0, X));
			if (!ok) mismatch(e); else if (due()) sample(() => e);
		}
	},
	// results stay as returned, whatever happens later (including garbage collection and the caller scribbling over other results)
	retained() {
		const g = new Rng(P.seed); let gc = () => {};
		try { require('v8').setFlagsFromString('--expose-gc'); gc = require('vm').runInNewContext('gc'); } catch (e) {}
		const kept = [], pl = place(g);
		const keep = (fn, b) => { if (Buffer.isBuffer(b)) kept.push({ fn, b, copy: Buffer.from(b), n: b.length }); };
		const verify = all => { for (let i = all ? 0 : g.n(7); i < kept.length; i += all ? 1 : 7) { const x = kept[i]; rec.evaluations++; const e = { op: 'retained', fn: x.fn, n: x.n, changed: x.b.length !== x.n || !same(x.b, x.copy) }; if (e.changed) mismatch(e); else if (due()) sample(() => e); } };
		for (let k = 0; k < N; k++) {
			const fn = g.pick(['encode', 'decode', 'decodeChunk', 'crc32', 'crc32_combine', 'crc32_zeroes', 'crc32_multiply', 'crc32_shift', 'post', 'multi', 'from_post']);
			calling(() => ({ op: 'retained', fn }));
			if (fn === 'post') { const d = pl(g.r(0, 600)); genEncData(g, d.length, d); keep(fn, y.post('name', d, 128)); }
			else if (fn === 'from_post') { // the data comes back in a buffer of its own, and the article stays
				const d = pl(g.p(0.1) ? g.r(3000, 70000) : g.r(0, 600)), raw = g.p(0.5); genEncData(g, d.length, d);
				const art = Buffer.concat([y.post('name', d, 128), Buffer.from('\r\n')]), r = y.from_post(art, raw);
				keep('from_post article', art); if (!(r instanceof Error) && r.data) { keep(fn, r.data); keep(fn, r.crc32); if (g.p(0.3)) { r.data.fill(g.n(256)); kept.splice(kept.length - 2, 1); } }
			}
			else if (fn === 'multi') { const d = Buffer.alloc(g.r(2, 400)); genEncData(g, d.length, d); const h = d.length >> 1, m = y.multi_post('n', d.length, 2, 64); keep(fn, m.encode(d.subarray(0, h))); keep(fn, m.encode(d.subarray(h))); }
			else {
				const c = makeCall(g, fn, lenMix(g), pl, n => Buffer.alloc(n), {}), r = invoke(c);
				if (fn === 'decodeChunk') { if (!c.insitu) keep(fn, r.output); } else keep(fn, r);
			}
			if (kept.length > 400) { // the caller owns its results: overwriting some must not affect others
				verify(false);
				for (let j = 0; j < 60; j++) { const x = kept.splice(g.n(kept.length), 1)[0]; x.b.fill(g.n(256)); if (g.p(0.3)) { x.copy.fill(x.b[0] || 0); if (x.b.length) kept.push(x); } }
				verify(false);
				if (g.p(0.3)) { gc(); verify(true); }
			}
		}
		gc(); verify(true);
	},
	// some of very many results of one function: storage that is used again and again would come round to them
	longlived() {
		const g = new Rng(P.seed), art = Buffer.concat([y.post('name', Buffer.from('some data'), 128), Buffer.from('\r\n')]);
		for (const [max, n] of [[60, P.n || 20000], [1200, (P.n || 20000) >> 3], [20000, (P.n || 20000) >> 6]]) {
			const datas = Array.from({ length: 64 }, () => { const d = Buffer.alloc(g.r(1, max)); genEncData(g, d.length, d); return d; });
			const encs = datas.map(d => encodeRef(d, 128, 0)), arts = datas.map(d => Buffer.concat([y.post('n', d), Buffer.from('\r\n')])), c4 = datas.map(() => Buffer.from([g.n(256), g.n(256), g.n(256), g.n(256)]));
			const F = {
				encode: i => [y.encode(datas[i])], decode: i => [y.decode(encs[i])], 'decode with dots': i => [y.decode(encs[i], true)], decodeChunk: i => [y.decodeChunk(encs[i]).output], 'decodeChunk from a state': i => [y.decodeChunk(encs[i], '').output],
				post: i => [y.post('n', datas[i])], multi_post: i => { const d = datas[i], m = y.multi_post('n', d.length * 2, 2); return [m.encode(d), m.crc, m.encode(d), m.crc]; }, from_post: i => { const r = y.from_post(arts[i]); return [r.data, r.crc32]; },
				crc32: i => [y.crc32(datas[i])], crc32_combine: i => [y.crc32_combine(c4[i], c4[63 - i], i)], crc32_zeroes: i => [y.crc32_zeroes(i, c4[i])], crc32_multiply: i => [y.crc32_multiply(c4[i], c4[63 - i])], crc32_shift: i => [y.crc32_shift(i, c4[i])],
			};
			for (const fn in F) {
				const kept = []; calling(() => ({ op: 'retained', fn }));
				for (let k = 0; k < n; k++) { const rs = F[fn](k & 63); if (k < 20 || k % (n >> 5) === 3) for (const b of rs) kept.push([b, Buffer.from(b)]); }
				rec.evaluations += n;
				const e = { op: 'retained', fn, n: kept.length, changed: kept.some(([b, c]) => !same(b, c)) };
				if (e.changed) mismatch(e); else if (due()) sample(() => e);
			}
		}
	},
};
main(jobs);
