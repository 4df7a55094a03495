'use strict';
// Incremental decoding (C05, C06; reused by C19): sessions of decodeChunk calls on the real library.
const C = require('./common.js');
const { P, T, y, Rng, decodeRef, STATESTR, ENDSTR, B, S, rec, sample, due, mismatch, count, calling, main, shrink, genDecData, view, lenOf, DTOK, DEND, DALPHA } = C;
const N = P.n || 1, OP = P.op || 'stream';
const STNO = {}; STATESTR.forEach((s, i) => { STNO[s] = i; });

// one call; returns the record of what happened
function call(data, str, form, g) {
	calling(() => ({ op: OP, start: S(str), form, data: B(data), align: data.byteOffset & 63 }));
	let r, out = null;
	try {
		if (form === 'new') r = y.decodeChunk(data, str);
		else if (form === 'to') { out = view(1, data.length + (g ? g.n(4) : 0), g ? g.n(64) : 0); r = y.decodeChunk(data, str, out); }
		else if (form === 'ot') { out = view(1, data.length, g ? g.n(64) : 0); r = y.decodeChunk(data, out, str); }
		else { out = view(2, data.length, data.byteOffset & 63); data.copy(out); r = y.decodeChunk(out, str, out); }
	} catch (e) { return { failed: 'threw ' + e.message }; }
	if (!r || !Number.isInteger(r.written) || !Number.isInteger(r.read) || !Buffer.isBuffer(r.output) || r.written < 0 || r.written > r.output.length || typeof r.state !== 'string' || typeof r.ended !== 'boolean') return { failed: 'malformed result ' + JSON.stringify(r) };
	if (out !== null && r.output !== out) return { failed: 'output is not the supplied Buffer' };
	if (out === null && r.output.length !== r.written) return { failed: 'new output Buffer of wrong length' };
	return { out: r.output.subarray(0, r.written), read: r.read, ended: r.ended, state: r.state };
}
function good(c, data, str) { // against the tables; str must be canonical
	if (c.failed) return false;
	if (data.length === 0) return c.out.length === 0 && c.read === 0 && c.ended === false && c.state === str;
	const e = decodeRef('chunk', data, STNO[str]);
	return c.read === e.r && c.ended === (e.end !== 0) && c.state === (e.end ? ENDSTR[e.end - 1] : STATESTR[e.st]) && Buffer.compare(c.out, e.o) === 0;
}
function calls(cs) { return cs.map(([data, c]) => Object.assign({ data: B(data), written: c.failed ? 0 : c.out.length, read: c.failed ? 0 : c.read, out: c.failed ? [] : B(c.out), ended: !!c.ended, state: S(c.state || '') })); }
function event(start, cs) { const f = cs.find(x => x[1].failed), e = { op: OP, start: S(start), form: cs.form, calls: calls(cs) }; if (f) e.failed = f[1].failed; return e; }
const FORMS = ['new', 'new', 'to', 'insitu', 'ot'];

// feed `data` (in place in its pool) cut at the given lengths, starting from state string `start`
function session(g, data, start, cuts, form) {
	rec.evaluations++;
	const keep = rec.sampleBytes < 3000 && rec.evaluations % 7 === 0, cs = []; cs.form = form;
	let p = 0, i = 0, str = start, n = data.length, total = 0;
	do {
		const l = Math.min(cuts.length ? cuts[i++ % cuts.length] : n, n - p), d = data.subarray(p, p + l);
		const c = call(d, str, form, g);
		if (!good(c, d, str)) return failed(g, d, str, form, c, start, data.subarray(0, p + l), cuts);
		if (keep) cs.push([Buffer.from(d), Object.assign({}, c, { out: Buffer.from(c.out) })]);
		str = c.state; p += l; total += c.read;
		if (c.ended) { count('ended'); break; }
	} while (p < n);
	// C06 needs whole histories in the trace
	if (keep && due()) sample(() => event(start, cs));
}
function failed(g, d, str, form, c, start, upto, cuts) {
	const align = d.byteOffset & 63, orig = Buffer.from(d);
	if (c.failed) c = { failed: c.failed }; else c = Object.assign({}, c, { out: Buffer.from(c.out) });
	const at = x => { const v = view(0, x.length, align); x.copy(v); return v; };
	let best = [orig, c];
	if (rec.mismatches.length < 6 && orig.length > 40) {
		const keep = Buffer.from(upto);
		const m = shrink(orig, x => { const v = at(x); return !good(call(v, str, form), v, str); });
		const v = at(m), c2 = call(v, str, form);
		if (!good(c2, v, str)) best = [m, c2.failed ? c2 : Object.assign({}, c2, { out: Buffer.from(c2.out) })];
		keep.copy(upto);
	}
	// a fresh-start account is only right for sessions that began afresh; a failing single call is judged as a stream of one
	const e = event(str, Object.assign([best], { form })); e.op = OP === 'end' && str === '\r\n' ? 'end' : 'stream'; e.align = align;
	mismatch(e);
}
function cutsOf(g, n) {
	const k = g.n(6);
	return k === 0 ? [] : k === 1 ? [1] : k === 2 ? [g.r(1, 70)] : k === 3 ? [g.r(1, 9), g.r(0, 3), g.r(50, 200)] : k === 4 ? [g.n(n + 1) || 1, n] : [g.r(1, 40), g.r(0, 2), g.r(1, 300), g.r(1, 3)];
}
const START = () => OP === 'end' ? '\r\n' : null;
const jobs = {
	random() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const n = lenOf(g), d = view(0, n, g.n(64));
			genDecData(g, n, d, g.pick([0, 0, 0.02, 0.1, 0.4]));
			session(g, d, START() || (g.p(0.5) ? '\r\n' : g.pick(STATESTR)), cutsOf(g, n), g.pick(FORMS));
		}
	},
	// every two-way split of short streams, and byte-at-a-time, from every state
	splits() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const n = g.r(2, 150), d = view(0, n, g.n(64)); genDecData(g, n, d, 0.1);
			const copy = Buffer.from(d);
			for (let c = 0; c <= n; c++) { copy.copy(d); session(g, d, START() || STATESTR[(k + c) % 7], [c, n], g.pick(FORMS)); }
			session(g, d, START() || g.pick(STATESTR), [1], 'new');
		}
	},
	// tokens at every offset, from every starting state and many alignments
	slide() {
		const g = new Rng(P.seed);
		const near = ['\r\n=', '\r\n.', '\r\n.\r', '\r\n.=', '\r\n..=y', '\r\n=\r\n=y', '\r\r\n=y', '=\r\n=y', '\r\n==y', '\n=y', '\r=y', '=y', '\r\n=Y', '\r\n.y', '\r\n.\n', '\r\n.\r\r\n', '\r\n..\r\n', '=\r\n.\r\n', '\r\n.\r.\r\n', '\r\n=\r\n.\r\n', '\r\n.=\r\n.\r\n', '\r\n\r\n=y', '\r\n\r\n.\r\n', '.\r\n', '=\n=y', '\r\n.=Y', '\r\n.\r=y', '\r\n.==y', '\r\n=.y', '\r\n=\ry', '\r\n.\r\n=y', '\r\n=y=y'].map(s => Buffer.from(s));
		const toks = DEND.concat(near), n = P.width || 230;
		for (let ti = 0; ti < toks.length; ti++) {
			const t = toks[ti];
			for (let rep = 0; rep < (P.reps || 3); rep++) {
				const align = g.n(64), d = view(0, n, align), dense = g.p(0.4), start0 = g.n(7);
				for (let p = 0; p + t.length <= n; p++) {
					for (let i = 0; i < n; i++) d[i] = 65 + (i % 26);
					if (dense) for (let q = g.n(9); q > 0; q--) { const x = g.pick(DTOK), o = g.n(n - x.length); x.copy(d, o); }
					t.copy(d, p);
					session(g, d, START() || STATESTR[(start0 + p) % 7], rep === 0 ? [] : rep === 1 ? [p + g.n(t.length + 1) || 1, n] : cutsOf(g, n), g.pick(FORMS));
				}
			}
		}
	},
	// all short tails over the interesting alphabet at lengths around the vector thresholds
	tails() {
		const g = new Rng(P.seed), A = [13, 10, 46, 61, 121, 65], L = P.L || 4, tot = Math.pow(6, L);
		for (let base = P.from || 0; base <= (P.to || 0); base++) {
			const n = base + L, d = view(0, n, g.n(64));
			for (let i = 0; i < n; i++) d[i] = 66 + (i % 30);
			for (let si = 0; si < (OP === 'end' ? 1 : 7); si++) for (let v = 0; v < tot; v++) {
				let x = v; for (let j = 0; j < L; j++) { d[base + j] = A[x % 6]; x = Math.floor(x / 6); }
				session(g, d, OP === 'end' ? '\r\n' : STATESTR[si], [], 'new');
			}
		}
	},
	// short heads: all strings over the alphabet at the start of a longer chunk, from every state
	heads() {
		const g = new Rng(P.seed), A = [13, 10, 46, 61, 121, 65], L = P.L || 4, tot = Math.pow(6, L);
		for (let k = 0; k < N; k++) {
			const n = g.pick([L, L + 1, 40, 70, 100, 140, 200, 270]), d = view(0, n, g.n(64));
			for (let si = 0; si < (OP === 'end' ? 1 : 7); si++) for (let v = 0; v < tot; v++) {
				for (let i = L; i < Math.min(n, L + 8); i++) d[i] = 66 + (i % 30);
				if (n > L + 8 && (v & 63) === 0) for (let i = L + 8; i < n; i++) d[i] = 66 + (i % 30);
				let x = v; for (let j = 0; j < L; j++) { d[j] = A[x % 6]; x = Math.floor(x / 6); }
				session(g, d, OP === 'end' ? '\r\n' : STATESTR[si], [], (v & 7) === 3 ? 'insitu' : 'new');
			}
		}
	},
	// every window of the block model (MCBlocks): all strings of L symbols, laid across a block boundary at every offset,
	// or across the place where the blocks end and single bytes take over
	windows() {
		const g = new Rng(P.seed), A = [13, 10, 46, 61, 121, 65], L = P.L || 6, tot = Math.pow(6, L), of = P.of || 1;
		for (let rep = 0; rep < N; rep++) for (let v = P.part || 0; v < tot; v += of) {
			const n = g.r(140, 290), align = g.p(0.6) ? 0 : g.n(64), d = view(0, n, align);
			const edge = g.p(0.7) ? 64 * g.r(1, 3) - align + (g.p(0.3) ? 16 * g.r(1, 3) : 0) : n - g.r(0, 70), p = Math.max(0, Math.min(n - L, edge - g.n(L + 1)));
			for (let i = 0; i < n; i++) d[i] = 66 + (i % 30);
			if (g.p(0.2)) d[g.n(n)] = g.pick(A);
			let x = v; for (let j = 0; j < L; j++) { d[p + j] = A[x % 6]; x = Math.floor(x / 6); }
			const si = g.n(7), t = OP === 'end' || g.p(0.7) ? '\r\n' : STATESTR[si];
			session(g, d, t, [], (v & 3) === 1 ? 'insitu' : 'new');
		}
		// the inputs that tell the specified block design from one with a part left out, everywhere
		for (const w of Object.values(T.witness)) for (let p = 0; p < 200; p++) for (let rep = 0; rep < 3; rep++) {
			const n = p + w.s.length + g.n(150), d = view(0, n, rep ? g.n(64) : 0);
			for (let i = 0; i < n; i++) d[i] = 66 + (i % 30);
			Buffer.from(w.s).copy(d, p); session(g, d, OP === 'end' ? '\r\n' : STATESTR[0], rep === 2 ? [p + g.n(5) || 1, n] : [], 'new');
		}
	},
	long() {
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const n = g.r(50000, 900000), d = view(0, n, g.n(64)); genDecData(g, n, d, g.p(0.5) ? 0.0005 : 0);
			const c = g.n(4); session(g, d, START() || g.pick(STATESTR), c === 0 ? [] : c === 1 ? [g.r(500, 70000)] : c === 2 ? [1460] : [65536, g.r(1, 5)], g.pick(FORMS));
		}
	},
};
main(jobs);
