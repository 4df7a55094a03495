'use strict';
// Threads and contexts that load, call and end (C18).
const { Worker, isMainThread, parentPort, workerData } = require('worker_threads');
const C = require('./common.js'), L = require('./calllib.js');
const { P, Rng, rec, sample, due, mismatch, count, calling, main, fs } = C;
const path = require('path'), vm = require('vm'), crypto = require('crypto');
let H = null;
if (P.guard) H = require(P.guard);

if (!isMainThread) {
	const ctl = workerData && workerData.ctl ? Buffer.from(workerData.ctl) : null;
	if (H && ctl) H.control(ctl, P.guard + '.hook.so');
	const lib = {}, kept = [];
	const instance = dir => lib[dir] || (lib[dir] = require(path.join(dir, 'index.js')));
	const ints = workerData && workerData.ctl ? new Int32Array(workerData.ctl) : null;
	const watched = () => ({ loads: ints[2], stores: ints[3], at: Array.from(ints.subarray(16, 16 + Math.min(200, ints[3]))), n: ints[6], globals: ints[8], expired: ints[7] });
	const cmds = {
		load(m) { if (H && m.watch) H.watch(2); try { instance(m.dir); } finally { if (H && m.watch) H.watch(0); } return m.watch ? watched() : {}; },
		calls(m) { // several calls, each watched or not
			return m.calls.map(c => {
				const y = instance(m.dir), bufs = c.data ? [L.buf(c.data)] : [];
				if ((c.out = L.outFor(c))) bufs.push(c.out);
				if (m.watch) H.watch(1, ...bufs);
				const r = L.run(y, c), w = m.watch ? (H.watch(0), watched()) : null;
				if (m.keep) kept.push(r);
				return { r, w };
			});
		},
		kept() { return kept.splice(0); },
		churn(m) { // make calls and check them here, for a while
			const g = new Rng(m.seed), y = instance(m.dir), o = { n: 0, bad: [], some: [] }, hold = [], till = Date.now() + m.ms;
			for (let k = 0; k < m.n || Date.now() < till; k++) {
				const c = L.gen(g, g.p(0.9) ? g.r(1, 700) : g.r(700, 20000)), r = L.run(y, c), [ok, e] = L.check(c, r);
				o.n++; if (!ok && o.bad.length < 4) o.bad.push(e); else if (ok && o.n % 97 === 5 && o.some.length < 3 && (!c.data || c.data.length < 500)) o.some.push(e);
				if (hold.length < 40) hold.push([c, r, L.flat(r)]);
			}
			for (const [c, r, f] of hold) if (L.flat(r) !== f && o.bad.length < 6) o.bad.push({ judge: 'TraceWorkers', op: 'alone', call: c.k + ' (result looked at later)', out: L.flat(r), alone: f });
			return o;
		},
		exit() { process.exit(0); },
		throw_() { setImmediate(() => { throw new Error('ending with an exception'); }); return {}; },
	};
	parentPort.on('message', m => { let r; try { r = { ok: cmds[m.cmd](m) }; } catch (e) { r = { failed: String(e && e.stack).slice(0, 600) }; } parentPort.postMessage({ id: m.id, r }); });
	parentPort.postMessage({ id: 0 });
} else {

// ---------------------------------------------------------------- threads, seen from the controlling one
let seq = 0, ids = 1;
function copy() {
	const dir = path.join(path.dirname(P.out), 'lib' + (seq++));
	fs.mkdirSync(path.join(dir, 'build/Release'), { recursive: true });
	for (const f of ['index.js', 'package.json', 'build/Release/yencode.node']) if (fs.existsSync(path.join(P.pkg, f))) fs.copyFileSync(path.join(P.pkg, f), path.join(dir, f));
	return dir;
}
const sleep = ms => new Promise(r => setTimeout(r, ms));
class Thread {
	constructor() {
		this.sab = new SharedArrayBuffer(4096); this.ctl = new Int32Array(this.sab); this.waiting = {}; this.ended = false;
		this.w = new Worker(__filename, { argv: [process.argv[2]], workerData: { ctl: this.sab }, stdout: false, stderr: true });
		this.ready = new Promise(r => { this.waiting[0] = r; });
		this.w.on('message', m => { const f = this.waiting[m.id]; delete this.waiting[m.id]; if (f) f(m.r); });
		this.done = new Promise(r => this.w.on('exit', () => { this.ended = true; for (const k in this.waiting) this.waiting[k]({ gone: true }); r(); }));
		this.w.on('error', () => 0);
	}
	send(m) { if (this.ended) return Promise.resolve({ gone: true }); m.id = ids++; return new Promise(r => { this.waiting[m.id] = r; this.w.postMessage(m); }); }
	park(at) { this.ctl[7] = 0; Atomics.store(this.ctl, 4, 0); Atomics.store(this.ctl, 5, 0); this.ctl[1] = at; }
	free() { this.ctl[1] = 0; Atomics.store(this.ctl, 5, 1); }
	async end() { await this.w.terminate(); }
}
// resolves to the value, or to undefined after ms
const within = (p, ms) => Promise.race([p, sleep(ms)]);
async function parked(t, p) { let over = false; p.then(() => { over = true; }); while (!over && Atomics.load(t.ctl, 4) !== 1) await sleep(1); return !over; }

// a schedule: what was observed, in order
function Schedule() { this.steps = []; this.bad = false; }
Schedule.prototype.add = function (t, a, x) { this.steps.push(Object.assign({ t, a }, x)); };
const dig = s => s.length <= 400 ? s : crypto.createHash('sha1').update(s).digest('hex') + ' of ' + s.length;
Schedule.prototype.ret = function (t, c, r) {
	rec.evaluations++;
	const [ok, e] = L.check(c, r);
	if (!ok) { this.bad = true; mismatch(e); } else if (due() && (!c.data || c.data.length < 700)) sample(() => e);
	this.add(t, 'return', { call: c.k, same: ok });
};
Schedule.prototype.fin = function (what) { const e = { judge: 'TraceWorkers', op: 'schedule', what, steps: this.steps }; rec.evaluations++; if (this.bad) mismatch(e); else rec.samples.push(e); };
function failure(what, r) { mismatch({ judge: 'TraceWorkers', op: 'alone', call: what, failed: r && r.gone ? 'thread ended' : r ? String(r.failed) : 'no answer' }); }
const similar = (g, c) => { const d = L.gen(g, c.data ? Math.max(1, c.data.length) : 1, [c.k]); if (c.ls) d.ls = c.ls; if (d.col > d.ls) d.col = d.ls; if (c.israw !== undefined) d.israw = c.israw; return d; };
// a spread-out selection of k of xs
const spread = (xs, k) => xs.length <= k ? xs : Array.from({ length: k }, (_, i) => xs[Math.floor(i * (xs.length - 1) / (k - 1))]);

const jobs = {
	// every access to memory others can reach is seen; where there are stores, the thread is held before and after them while another one makes calls
	async park() {
		const g = new Rng(P.seed), A = new Thread(), Bt = new Thread(); await A.ready; await Bt.ready;
		const ok = (r, what) => { if (r && r.ok) return r.ok; failure(what, r); throw new C.Enough(); };
		// t is held at `at` during `first`; meanwhile the other thread does `second`
		async function hold(what, s, t, at, first, o, second, after) {
			t.park(at); const p = t.send(first); const held = await parked(t, p);
			if (held) s.add(1, 'held', {});
			const q = second(); let r2 = await within(q, P.patience || 250);
			if (held && r2 === undefined) { s.add(2, 'waits', {}); count('waited'); }
			t.free(); const r1 = await p; if (r2 === undefined) r2 = await q;
			if (t.ctl[7]) throw new Error('schedule expired');
			count(held ? 'held' : 'not held');
			await after(r1, r2); s.fin(what);
		}
		for (let rep = 0; rep < (P.n || 3); rep++) {
			const dir = copy(), s = new Schedule();
			s.add(1, 'load'); const l1 = ok(await A.send({ cmd: 'load', dir, watch: true }), 'load'); s.add(1, 'loaded');
			s.add(2, 'load'); const l2 = ok(await Bt.send({ cmd: 'load', dir, watch: true }), 'second load'); s.add(2, 'loaded');
			count('stores while loading', l1.stores); count('stores while loading again', l2.stores);
			const calls = []; for (let k = 0; k < (P.calls || 300); k++) calls.push(L.gen(g, k % 20 === 7 ? g.r(1, 100000) : g.r(1, 900), k < 2 * L.KINDS.length ? [L.KINDS[(k + rep) % L.KINDS.length]] : undefined));
			const rs = ok(await A.send({ cmd: 'calls', dir, calls, watch: true }), 'calls'), writers = [];
			rs.forEach((x, k) => { s.add(1, 'call'); s.ret(1, calls[k], x.r); count('shared loads', x.w.loads); count('shared stores in calls', x.w.stores); if (x.w.stores) count('stores in ' + calls[k].k, x.w.stores); if (x.w.stores) writers.push({ k, c: calls[k], w: x.w }); });
			s.steps = s.steps.slice(0, 200); s.fin('one thread, then another');
			// calls that store where others can see: hold them there, those that store in global variables first
			const kinds = {}, plan = []; for (const x of writers) (kinds[x.c.k] = kinds[x.c.k] || []).push(x);
			for (const kind in kinds) {
				const gl = kinds[kind].filter(x => x.w.globals), ot = kinds[kind].filter(x => !x.w.globals);
				for (const x of [].concat(gl.slice(0, 2), spread(gl.slice(2), 4), ot.slice(0, 1), spread(ot.slice(1), 2))) {
					const at = new Set(); x.w.at.forEach(i => { at.add(i); at.add(i + 1); }); at.add(x.w.n);
					for (const i of spread([...at].sort((a, b) => a - b), 10)) for (const warm of [false, true]) plan.push({ x, kind, i, warm, pri: (x.w.globals ? 0 : 1) + g.u() / 4294967296 });
				}
			}
			count('calls storing in globals', writers.filter(x => x.w.globals).length);
			plan.sort((a, b) => a.pri - b.pri);
			for (const { x, kind, i, warm } of plan.slice(0, P.budget || 40)) {
				const d2 = copy(), s2 = new Schedule();
				ok(await A.send({ cmd: 'load', dir: d2 }), 'load'); ok(await Bt.send({ cmd: 'load', dir: d2 }), 'load');
				s2.add(1, 'load'); s2.add(1, 'loaded'); s2.add(2, 'load'); s2.add(2, 'loaded');
				if (warm) { const w = similar(g, x.c); const r = ok(await A.send({ cmd: 'calls', dir: d2, calls: [w] }), 'call'); s2.add(1, 'call'); s2.ret(1, w, r[0].r); }
				const c2 = [similar(g, x.c), x.c, similar(g, x.c), L.gen(g, g.r(1, 900)), L.gen(g, g.r(1, 900))];
				s2.add(1, 'call');
				calling(() => ({ op: 'alone', call: kind + ' held at access ' + i, data: x.c.data && Array.from(L.buf(x.c.data)).slice(0, 200) }));
				await hold(kind + ' held at access ' + i, s2, A, i, { cmd: 'calls', dir: d2, calls: [x.c], watch: true }, Bt, () => Bt.send({ cmd: 'calls', dir: d2, calls: c2, keep: true }), async (r1, r2) => {
							const b = ok(r2, 'calls of the second thread'); c2.forEach((c, k) => { s2.add(2, 'call'); s2.ret(2, c, b[k].r); });
							s2.ret(1, x.c, ok(r1, 'call of the held thread')[0].r);
							const kept = ok(await Bt.send({ cmd: 'kept' }), 'kept'); c2.forEach((c, k) => { const [good, e] = L.check(c, kept[k]); if (!good) { s2.bad = true; mismatch(e); } });
						});
			}
			// a second load that stores: hold it there while the first thread makes calls
			if (l2.stores) for (const i of spread([...new Set(l2.at.concat(l2.at.map(x => x + 1)))].sort((a, b) => a - b), 24)) {
								const d2 = copy(), s2 = new Schedule(), cs = L.KINDS.map(k => L.gen(g, g.r(1, 900), [k]));
				ok(await A.send({ cmd: 'load', dir: d2 }), 'load'); s2.add(1, 'load'); s2.add(1, 'loaded'); s2.add(2, 'load');
				await hold('loading again held at access ' + i, s2, Bt, i, { cmd: 'load', dir: d2, watch: true }, A, () => A.send({ cmd: 'calls', dir: d2, calls: cs }), async (r1, r2) => {
					const b = ok(r2, 'calls during a load'); cs.forEach((c, k) => { s2.add(1, 'call'); s2.ret(1, c, b[k].r); }); ok(r1, 'load'); s2.add(2, 'loaded');
				});
			}
			// the first load: hold it while another thread loads and calls (it has to wait, or to do without)
			for (const i of spread(l1.at.concat([l1.n - 1, Math.floor(l1.n / 2), Math.floor(l1.n / 3)]).filter(x => x > 0).sort((a, b) => a - b), P.loads || 3)) {
				const d2 = copy(), s2 = new Schedule(), cs = L.KINDS.map(k => L.gen(g, g.r(1, 900), [k]));
				s2.add(1, 'load'); s2.add(2, 'load');
				await hold('first load held at access ' + i, s2, A, i, { cmd: 'load', dir: d2, watch: true }, Bt, () => Bt.send({ cmd: 'calls', dir: d2, calls: cs }), async (r1, r2) => {
					const b = ok(r2, 'calls of the second thread'); s2.add(2, 'loaded'); cs.forEach((c, k) => { s2.add(2, 'call'); s2.ret(2, c, b[k].r); }); ok(r1, 'load'); s2.add(1, 'loaded');
					const r3 = ok(await A.send({ cmd: 'calls', dir: d2, calls: cs }), 'calls'); cs.forEach((c, k) => { s2.add(1, 'call'); s2.ret(1, c, r3[k].r); });
				});
			}
		}
		await A.end(); await Bt.end();
	},
	// every schedule that GenWorkers gives
	async schedules() {
		const g = new Rng(P.seed), all = JSON.parse(fs.readFileSync(P.behaviours, 'utf8')).filter((_, i) => i % (P.of || 1) === (P.part || 0)), ok = (r, what) => { if (r && r.ok) return r.ok; failure(what, r); throw new C.Enough(); };
		const spare = []; const fresh = () => { while (spare.length < 4) spare.push(new Thread()); return spare.shift(); };
		for (let k = 0; k < all.length; k++) {
			const dir = copy(), s = new Schedule(), T = {}, what = all[k].map(x => x.t + ' ' + x.a).join(', ');
			calling(() => ({ op: 'alone', call: what }));
			const some = t => { const l = T[t].last; return Array.from({ length: g.r(1, 4) }, () => l && g.p(0.3) ? similar(g, l) : L.gen(g, g.p(0.9) ? g.r(1, 900) : g.r(900, 200000))); };
			const step = { // what is sent first is not waited for until its end is due
				async load(t) { T[t] = { w: fresh(), all: [] }; await T[t].w.ready; s.add(t, 'load'); T[t].p = T[t].w.send({ cmd: 'load', dir }); },
				async loaded(t) { ok(await T[t].p, 'load'); s.add(t, 'loaded'); },
				call(t) { T[t].cs = some(t); T[t].last = T[t].cs[0]; s.add(t, 'call'); T[t].p = T[t].w.send({ cmd: 'calls', dir, calls: T[t].cs, keep: true }); },
				async return(t) { const r = ok(await T[t].p, 'calls'); T[t].cs.forEach((c, i) => { if (i) s.add(t, 'call'); s.ret(t, c, r[i].r); }); T[t].all.push(...T[t].cs); },
				async end(t) { // results already returned are as they were
					const x = T[t], r = ok(await x.w.send({ cmd: 'kept' }), 'kept'); x.all.forEach((c, i) => { const [good, e] = L.check(c, r[i]); if (!good) { s.bad = true; mismatch(e); } });
					s.add(t, 'end'); const how = (k + t) % 3; if (how === 0) x.w.send({ cmd: 'exit' }); else if (how === 1) x.w.send({ cmd: 'throw_' }); if (how < 2) await within(x.w.done, 3000); await x.w.end();
				},
			};
			for (const x of all[k]) for (const a of x.a.split(' ')) await step[a](x.t);
			s.fin(what); fs.rmSync(dir, { recursive: true, force: true });
		}
		for (const t of spare) await t.end();
	},
	// threads that come and go, really in parallel
	async churn() {
		const g = new Rng(P.seed); let dir = copy(), slots = [], y = null, pend = [], s = new Schedule(), name = 1;
		const take = r => { try { take_(r); } catch (e) { if (!(e instanceof C.Enough)) throw e; } };
		const take_ = r => { if (!r || r.gone) return; if (r.failed) return failure('calls in a thread', r); rec.evaluations += r.ok.n; r.ok.bad.forEach(e => { s.bad = true; mismatch(e); }); r.ok.some.forEach(e => { if (due()) sample(() => e); }); };
		const mine = n => { if (!y) y = require(path.join(dir, 'index.js')); for (let k = 0; k < n; k++) { const c = L.gen(g, g.r(1, 900)), r = L.run(y, c); rec.evaluations++; const [ok, e] = L.check(c, r); if (!ok) { s.bad = true; mismatch(e); } } };
		for (let round = 0; round < (P.n || 60); round++) {
			calling(() => ({ op: 'alone', call: 'round ' + round + ' of threads loading, calling and ending' }));
			const k = g.n(12);
			if (k < 5 && slots.length < (P.threads || 6)) { const n = g.r(1, 3); for (let i = 0; i < n; i++) { const t = new Thread(); t.name = name++; slots.push(t); s.add(t.name, 'load'); t.first = t.send({ cmd: 'churn', dir, seed: g.u() >>> 1, n: 30, ms: 10 }); t.first.then(take); pend.push(t.first); } }
			else if (k < 8) { for (const t of slots) { const p = t.send({ cmd: 'churn', dir, seed: g.u() >>> 1, n: 60, ms: g.n(30) }); p.then(take); pend.push(p); } if (g.p(0.5)) mine(g.r(1, 40)); }
			else if (k < 10 && slots.length) { // one ends, in one of several ways, perhaps in the middle of its calls
				const t = slots.splice(g.n(slots.length), 1)[0], how = g.n(4); s.add(t.name, 'end', { how }); count('ended ' + ['terminate', 'exit', 'exception', 'terminate when idle'][how]);
				if (how === 0) await t.end(); else if (how === 1) { t.send({ cmd: 'exit' }); await within(t.done, 3000); await t.end(); } else if (how === 2) { t.send({ cmd: 'throw_' }); await within(t.done, 3000); await t.end(); } else { await Promise.all(pend); await t.end(); }
				mine(10);
			} else if (k < 11) mine(30);
			else { await Promise.all(pend); pend = []; if (g.p(0.3)) { for (const t of slots) await t.end(); slots = []; if (s.steps.length) s.fin('threads coming and going'); s = new Schedule(); name = 1; y = null; dir = copy(); } }
		}
		await Promise.all(pend); for (const t of slots) await t.end(); s.fin('threads coming and going'); mine(200);
	},
	// encoders and decoders in progress at once: each comes to what it would alone
	interleaved() {
		const g = new Rng(P.seed), dir = copy(), y = require(path.join(dir, 'index.js')), live = [], DATA = [1, 2, 3].map(() => { const b = Buffer.alloc(60); C.genEncData(g, 60, b); return b; });
		const start = () => {
			if (g.p(0.5)) { // a multi-part post, often much like another
				const c = L.gen(g, g.r(1, 120), ['multi']), o = []; let p = 0;
				if (g.p(0.6)) { c.data = g.pick(DATA); c.name = 'f' + g.n(2); c.ls = g.pick([64, 128]); c.part = g.pick([20, 20, 60, 7]); }
				const n = c.data.length, m = y.multi_post(c.name, n, Math.ceil(n / c.part), c.ls);
				return { c, step() { if (g.p(0.1)) { try { m.encode(Buffer.alloc(n + 1)); throw new C.Enough(); } catch (e) { if (e instanceof C.Enough) { this.r = { threw: 'nothing, for a part too long' }; return true; } } } o.push(m.encode(Buffer.from(c.data.subarray(p, p + c.part)))); p += c.part; if (p < n) return false; this.r = Buffer.concat(o); return true; } };
			}
			const c = L.gen(g, g.r(1, 300), ['chunk']), o = []; let p = 0, st = C.STATESTR[c.st];
			return { c, step() {
				const d = Buffer.from(c.data.subarray(p, p + g.n(60))), mine = g.p(0.3) ? Buffer.alloc(70) : null, r = mine ? y.decodeChunk(d, st, mine) : y.decodeChunk(d, st);
				o.push(mine ? Buffer.from(r.output.subarray(0, r.written)) : r.output); p += r.read; st = r.state;
				if (!r.ended && p < c.data.length) return false;
				const out = Buffer.concat(o); this.r = { read: p, written: out.length, output: out, ended: r.ended, state: st }; return true;
			} };
		};
		for (let k = 0; k < (P.n || 1000); k++) {
			while (live.length < 8) { const x = start(); calling(() => ({ op: 'alone', call: x.c.k })); live.push(x); }
			const i = g.n(live.length), x = live[i]; let over = true;
			try { over = x.step(); } catch (e) { x.r = { threw: String(e && e.message) }; }
			if (!over) continue;
			live.splice(i, 1); rec.evaluations++; count('in progress at once: ' + x.c.k);
			const [ok, e] = L.check(x.c, x.r); if (!ok) mismatch(e); else if (due()) sample(() => e);
		}
	},
	// results are held, looked at again and altered, while the same and other calls are made; the steps are those of Results
	held() {
		const g = new Rng(P.seed), dir = copy(), y = require(path.join(dir, 'index.js'));
		const seeOf = r => { // all there is to see of a result
			const one = x => x instanceof Uint8Array ? 'b' + Buffer.from(x.buffer, x.byteOffset, x.length).toString('hex') : Array.isArray(x) ? '[' + x.map(one).join() + ']'
				: x instanceof Error ? 'E' + one({ code: x.code, message: x.message }) : x && typeof x === 'object' ? '{' + Object.keys(x).sort().map(k => k + ':' + one(x[k])).join() + '}' : typeof x + ':' + String(x);
			return dig(one(r));
		};
		const alter = (x, d) => { try {
			if (x instanceof Uint8Array) x.fill(g.n(256));
			else if (Array.isArray(x)) { for (const v of x) alter(v, d + 1); x.push('x'); }
			else if (x && typeof x === 'object') { for (const k of Object.keys(x)) { const v = x[k]; if (v && typeof v === 'object') alter(v, d + 1); if (d || g.p(0.5)) x[k] = 'altered'; } x.more = 1; }
		} catch (e) { /* not to be altered */ } };
		const mkCall = () => {
			const k = P.only === 'parse' ? 0 : P.only === 'chunk' ? 3 : P.only === 'post' ? 5 : g.n(10), data = Buffer.alloc(g.r(1, 90)); C.genEncData(g, data.length, data);
			const ls = g.pick([64, 128, 10]), name = g.pick(['a', 'b', 'c.bin']), bad = g.n(4);
			if (k < 3) { const art = y.post(name, data, ls), tail = g.pick(['\r\n', '\r\n', '', ' x=1 x=2 junk\r\n', ' part=0\r\n=yend size=7 crc32=zz\r\n']), e = Buffer.concat([Buffer.from(g.pick(['', '', 'text\r\n'])), bad ? art : art.subarray(0, g.n(art.length)), Buffer.from(tail)]), raw = g.p(0.5); return () => y.from_post(e, raw); }
			if (k < 5) { const d = Buffer.alloc(data.length); C.genDecData(g, d.length, d, 0.03); const st = g.pick(C.STATESTR); return () => y.decodeChunk(d, st); }
			if (k === 5) return () => y.post(name, data, ls);
			if (k === 6) return () => y.encode(data, ls);
			if (k === 7) { const b = g.pick([0, 1, 2, 3]), c = L.u32(g.u()), n = g.n(1000); return [() => y.crc32(data), () => y.crc32_zeroes(n, c), () => y.crc32_multiply(c, c), () => y.crc32_shift(n)][b]; }
			if (k === 8) return () => y.decode(data, true);
			return null;
		};
		// the checksums and articles of a multi-part post, seen after each part, are results too; altered only when it is complete
		const parts = (d, h) => { const m = y.multi_post('m', d.length, 3, 64), c = [0, Math.floor(d.length / 3), Math.floor(2 * d.length / 3), d.length], o = [h({ crc: m.crc })]; for (let i = 0; i < 3; i++) { h({ article: m.encode(d.subarray(c[i], c[i + 1])) }); h({ crc: m.crc }); } };
		for (let k = 0; k < (P.n || 100); k++) {
			const md = Buffer.alloc(g.r(3, 60)); C.genEncData(g, md.length, md);
			const calls = [], e = { judge: 'TraceWorkers', op: 'held', steps: [] }, held = new Map(), known = new Map(); let next = 0, bad = false;
			while (calls.length < 6) { const c = mkCall(); if (c) calls.push(c); }
			calling(() => e);
			const hold = (call, r, own) => { const v = seeOf(r); e.steps.push({ a: 'return', h: next, call, v }); if (known.has(call) && known.get(call) !== v) bad = true; known.set(call, v); held.set(next++, { r, v, own }); };
			const look = h => { const x = held.get(h), v = seeOf(x.r); e.steps.push({ a: 'look', h, v }); if (v !== x.v) bad = true; };
			for (let s = 0; s < 40 && !bad; s++) {
				const hs = [...held.keys()];
				if (hs.length < 2 || g.p(0.5)) {
					rec.evaluations++;
					if (g.p(P.only === 'post' ? 0.5 : P.only ? 0 : 0.12)) { let n = 0; parts(md, r => { hold('m' + n++, r, true); }); }
					else { const i = g.n(calls.length); let r; try { r = calls[i](); } catch (x) { r = { threw: String(x.message) }; } hold('c' + i, r, true); }
				} else if (g.p(0.5)) look(g.pick(hs));
				else { const h = g.pick(hs), x = held.get(h); if (!x.own) continue; alter(x.r, 0); e.steps.push({ a: 'alter', h }); held.delete(h); }
			}
			for (const h of held.keys()) if (!bad) look(h);
			count('results held');
			if (bad) mismatch(e); else if (due()) sample(() => e);
		}
	},
	// several instances in one thread: repeated loads, and loads in contexts of their own
	contexts() {
		const g = new Rng(P.seed);
		const src = fs.readFileSync(path.join(P.pkg, 'index.js'), 'utf8');
		for (let rep = 0; rep < (P.n || 6); rep++) {
			const dir = copy(), ys = [], node = path.join(dir, 'build/Release/yencode.node'), s = new Schedule(); let t = 0;
			const mk = [
				() => { const f = path.join(dir, 'index.js'); delete require.cache[f]; delete require.cache[node]; return require(f); },
				() => { const ctx = vm.createContext({ Buffer, process, console }), m = { exports: {} }; const load = vm.runInContext('(function(exports, require, module) {' + src + '\n})', ctx); load(m.exports, p => { const x = { exports: {} }; process.dlopen(x, node); return x.exports; }, m); return m.exports; },
			];
			for (let step = 0; step < (P.steps || 60); step++) {
				if (ys.length < 2 || g.p(0.15)) { t++; s.add(t, 'load'); const y = g.pick(mk)(); ys.push([t, y]); s.add(t, 'loaded'); }
				if (g.p(0.05) && ys.length > 2) { s.add(ys.shift()[0], 'end'); if (global.gc) global.gc(); }
				const [who, y] = g.pick(ys), c = L.gen(g, g.r(1, 900)); calling(() => ({ op: 'alone', call: c.k, data: c.data && Array.from(c.data) }));
				s.add(who, 'call'); s.ret(who, c, L.run(y, c));
			}
			s.fin('instances in one thread');
		}
	},
};
main(jobs);
}
