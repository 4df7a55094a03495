'use strict';
// Where memory goes (C20): rounds of equal calls whose results are dropped, threads that end holding results, calls that cannot get memory.
const { Worker, isMainThread, parentPort, workerData } = require('worker_threads');
const C = require('./common.js');
const { P, y, Rng, encodeRef, decodeRef, crcRef, rec, sample, mismatch, count, calling, main, genEncData, genDecData } = C;
const L = require('./calllib.js');
const buf = (n, f) => { const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = f(i); return b; };
const plain = n => buf(n, i => 40 + i % 50), L1 = s => Buffer.from(s, 'latin1');
const drop = f => { try { f(); } catch (e) {} };
const crc4 = Buffer.from([0x12, 0x34, 0x56, 0x78]);
// kinds of calls: name -> [calls per round, units of 16 bytes a round would leave behind, the call]
function kinds() {
	const K = {}, k = (name, n, f) => { K[name] = [n, name.endsWith(' big') ? 1000 * n : n, f]; };
	const S = { tiny: [3000, plain(3)], small: [2000, plain(700)], mid: [600, plain(9000)], big: [60, plain(300000)] };
	const dec = { zero: [3000, L1('\r\n\r\n')], eq: [3000, L1('=')], dots: [3000, L1('\r\n.')] };
	for (const s in S) {
		const [n, d] = S[s], e = y.encode(d), o = Buffer.alloc(y.maxSize(d.length)), esc = buf(d.length, () => 214);
		k('encode ' + s, n, () => y.encode(d)); k('encode all escaped ' + s, n, () => y.encode(esc, 64, 3)); k('encodeTo ' + s, n, () => y.encodeTo(d, o));
		k('decode ' + s, n, () => y.decode(e)); k('decode raw ' + s, n, () => y.decode(e, true)); k('decodeTo ' + s, n, () => y.decodeTo(e, o));
		k('decodeChunk ' + s, n, () => y.decodeChunk(e)); k('decodeChunk into ' + s, n, () => y.decodeChunk(e, null, o));
		const ended = Buffer.concat([e, L1('\r\n=yend size=1\r\n'), e]), early = Buffer.concat([L1('\r\n=y'), e]), only = buf(d.length, i => '\r\n'.charCodeAt(i & 1));
		k('decodeChunk ended ' + s, n, () => y.decodeChunk(ended)); k('decodeChunk ended at once ' + s, n, () => y.decodeChunk(early)); k('decodeChunk to nothing ' + s, n, () => y.decodeChunk(only)); k('decode to nothing ' + s, n, () => y.decode(only, n & 1));
		k('encodeTo rejected ' + s, n, () => drop(() => y.encodeTo(d, o.subarray(0, 2)))); k('decodeTo rejected ' + s, n, () => drop(() => y.decodeTo(e, o.subarray(0, 1)))); k('decodeChunk rejected ' + s, n, () => drop(() => y.decodeChunk(e, null, o.subarray(0, 1))));
		k('encode rejected ' + s, n, () => drop(() => y.encode(d, -1))); k('encode column rejected ' + s, n, () => drop(() => y.encode(d, 10, 11)));
		k('post ' + s, Math.ceil(n / 2), () => y.post('name', d)); k('multi_post ' + s, Math.ceil(n / 4), () => { const m = y.multi_post('name', d.length, 2, 64); const h = d.length >> 1; m.encode(d.subarray(0, h)); m.encode(d.subarray(h)); });
		k('multi_post abandoned ' + s, Math.ceil(n / 3), () => { const m = y.multi_post('name', 2 * d.length, 2, 64); m.encode(d); }); k('multi_post refused ' + s, Math.ceil(n / 3), () => { const m = y.multi_post('name', 1, 1, 64); drop(() => m.encode(d)); });
		const art = y.post('name', d), bad = Buffer.concat([art.subarray(0, art.length - 9), L1('12345678'), art.subarray(art.length)]);
		k('from_post ' + s, Math.ceil(n / 2), () => y.from_post(art)); k('from_post warnings ' + s, Math.ceil(n / 4), () => y.from_post(bad)); k('from_post dots ' + s, Math.ceil(n / 2), () => y.from_post(art, true)); k('from_post no end ' + s, n, () => y.from_post(e));
		k('crc32 ' + s, n, () => y.crc32(d, crc4));
	}
	for (const s in dec) { const [n, d] = dec[s]; k('decode ' + s, n, () => y.decode(d, true)); k('decode raw ' + s, n, () => y.decode(d)); k('decodeChunk ' + s, n, () => y.decodeChunk(d, '\r\n')); }
	const none = Buffer.alloc(0), one = Buffer.alloc(1);
	const g0 = new Rng(P.seed), mixed = Array.from({ length: 4000 }, () => L.gen(g0, g0.p(0.9) ? g0.n(700) : g0.r(700, 20000))); let at = 0;
	K.mixed = [4000, 1000, () => { const c = mixed[at++ % 4000]; L.run(y, c); }];
	// never the same twice
	let u = 0; const d9 = plain(9);
	k('post other names', 1500, () => y.post('n' + u++, d9)); k('multi_post other names', 1000, () => y.multi_post('m' + u++, 9 + u % 1000, 1 + u % 3, 1 + u % 500)); k('encode other lines', 2000, () => y.encode(d9, 1 + u++ % 100000, 1));
	k('from_post other names', 1500, () => { u++; y.from_post(L1('=ybegin line=128 size=' + u + ' part=' + u + ' a' + u + '=' + u + ' name=' + u + '\r\nABC\r\n=yend size=' + u + ' t' + u + '=1\r\n=yx' + u + ' b=1\r\n')); });
	k('decodeChunk other states', 2000, () => y.decodeChunk(d9, 's' + u++ + '\r')); k('sizes other', 3000, () => { y.minSize(u++, 64); y.maxSize(u, 1 + u % 1000, (u % 65) / 64); }); k('crc other', 2000, () => { const b = Buffer.alloc(4); b.writeUInt32BE(u++); y.crc32(d9, b); y.crc32_shift(u, b); y.crc32_zeroes(u * 1e6, b); });
	k('empty', 3000, () => { y.encode(none); y.decode(none); y.decodeChunk(none); y.encodeTo(none, one); y.decodeTo(none, one); y.crc32(none); });
	k('not Buffers', 2000, () => { for (const f of ['encode', 'encodeTo', 'decode', 'decodeTo', 'crc32', 'crc32_combine', 'crc32_multiply']) drop(() => y[f]('x')); drop(() => y.decodeChunk('x')); });
	k('crc arithmetic', 2000, () => { y.crc32_combine(crc4, crc4, 12345); y.crc32_zeroes(99, crc4); y.crc32_shift(-99, crc4); y.crc32_multiply(crc4, crc4); drop(() => y.crc32_combine(crc4, one, 3)); });
	k('sizes', 3000, () => { y.minSize(1000, 64); y.maxSize(1000, 64, 0.5); drop(() => y.maxSize(5, 64, 3)); });
	return K;
}
let G = null, gc = null;
const turn = () => new Promise(r => setImmediate(r));
async function settled() { // everything droppable collected
	let last = -1, m = null;
	for (let i = 0; i < 12; i++) { gc(); await turn(); await turn(); m = measure(); if (Math.abs(m[0] - last) < 64) break; last = m[0]; }
	return m;
}
const measure = () => { const m = process.memoryUsage(); return [G.mallinfo(), m.heapUsed, m.external].map(x => Math.round(x / 16)); };
const leaks = (s, per) => s.every((x, i) => i === 0 || x - s[i - 1] >= per);
async function rounds(name, R, per, round) { // round(): promise or not
	calling(() => ({ op: 'rounds', kind: name }));
	const ms = [];
	for (let r = 0; r < R + 1; r++) { await round(); const m = await settled(); if (r) ms.push(m); if (ms.length >= 4 && [0, 1, 2].every(j => !leaks(ms.map(x => x[j]), per))) break; }
	const s = j => ms.map(m => m[j] - ms[0][j]);
	return { op: 'rounds', kind: name, per, inuse: s(0), heap: s(1), external: s(2) };
}
const bad = e => [e.inuse, e.heap, e.external].some(s => leaks(s, e.per));
if (!isMainThread) {
	const hold = [], g = new Rng(workerData.seed);
	for (let i = 0; i < workerData.n; i++) {
		const d = Buffer.alloc(60000, 65 + i % 20); hold.push(i % 3 === 0 ? y.encode(d) : i % 3 === 1 ? y.decode(d) : y.decodeChunk(d).output);
		if (i % 10 === 0) { hold.push(y.decode(L1('\r\n'))); drop(() => y.encode(d, -1)); }
	}
	parentPort.postMessage(hold.length);
	parentPort.on('message', m => { if (m === 'exit') process.exit(0); else parentPort.close(); });
} else main({
	async rounds() {
		G = require(P.guard); require('v8').setFlagsFromString('--expose-gc'); gc = require('vm').runInNewContext('gc');
		const K = kinds(), names = Object.keys(K).filter((_, i) => i % (P.of || 1) === (P.part || 0));
		for (const name of names) {
			const [n, per, f] = K[name], N = n * (P.mult || 1);
			const go = m => rounds(name, P.rounds || 6, per * (P.mult || 1) * m, () => { for (let i = 0; i < N * m; i++) f(); rec.evaluations += N * m; });
			let e = await go(1);
			if (bad(e)) { for (let i = 0; i < 3 * N; i++) f(); e = await go(3); }           // once more, with more calls
			count(name.split(' ')[0] + ' rounds', e.inuse.length);
			if (bad(e)) mismatch(e); else rec.samples.push(e);
		}
	},
	async threads() {
		G = require(P.guard); require('v8').setFlagsFromString('--expose-gc'); gc = require('vm').runInNewContext('gc');
		const W = 3, n = 120;
		for (const how of ['terminate', 'exit', 'finish']) {
			const e = await rounds('threads ' + how, 5, W * n * 1000, async () => { // 16000 of the 60000 bytes of each result
				for (let w = 0; w < W; w++) {
					const t = new Worker(__filename, { argv: [process.argv[2]], workerData: { n, seed: P.seed + w } }), over = new Promise(r => t.on('exit', r));
					await new Promise((r, j) => { t.on('message', r); t.on('error', j); }); rec.evaluations += n;
					if (how === 'terminate') await t.terminate(); else t.postMessage(how);
					await over;
				}
			});
			if (bad(e)) mismatch(e); else rec.samples.push(e);
		}
	},
	// calls that cannot get memory
	async oom() {
		G = require(P.guard);
		const n = 160 << 20, A = (c, extra) => { const b = Buffer.alloc(n + extra.length, c); extra.copy(b, n); return b; }, one = Buffer.alloc(1 << 20, 65);
		const art0 = L1('=ybegin line=128 size=' + n + ' name=a\r\n'), plainD = Buffer.alloc(n, 65), out = Buffer.alloc(64), big = Buffer.alloc(n);
		const art = Buffer.concat([art0, plainD, L1('\r\n=yend size=' + n + '\r\n')]);
		const intact = d => { for (let p = 0; p < n; p += one.length) if (Buffer.compare(d.subarray(p, p + one.length), one)) return false; return true; };
		const small = L1('some data = \0\r\n'), enc = encodeRef(small, 128, 0);
		const works = () => { try { return Buffer.compare(y.encode(small), enc) === 0 && Buffer.compare(y.decode(enc, true), small) === 0 && y.decodeChunk(enc).written === small.length; } catch (e) { return false; } };
		const cases = {
			encode: [true, () => y.encode(plainD)], 'encode lines': [true, () => y.encode(plainD, 3, 1)], decode: [true, () => y.decode(plainD)], 'decode dots': [true, () => y.decode(plainD, true)],
			decodeChunk: [true, () => y.decodeChunk(plainD)], 'decodeChunk from a state': [true, () => y.decodeChunk(plainD, '=')], post: [true, () => y.post('a', plainD)], 'multi_post': [true, () => y.multi_post('a', n, 1).encode(plainD)], from_post: [true, () => y.from_post(art)],
			'decodeTo': [false, () => y.decodeTo(plainD, big)], 'decodeChunk into': [false, () => y.decodeChunk(plainD, null, big)], crc32: [false, () => y.crc32(plainD)], 'rejected': [true, () => y.encode(plainD, -1)], 'rejected output': [true, () => y.encodeTo(plainD, out)],
		};
		for (const name in cases) {
			const [starved, f] = cases[name], e = { op: 'oom', call: name, starved, threw: false, isError: true, untouched: true, afterwards: true };
			rec.evaluations++; calling(() => ({ op: 'oom', call: name }));
			G.limit(96 << 20);
			try { f(); } catch (er) { e.threw = true; e.isError = er instanceof Error; e.message = String(er && er.message); }
			const w1 = works();
			G.limit(-1);
			e.untouched = intact(plainD) && Buffer.compare(art.subarray(0, art0.length), art0) === 0 && out.every(b => b === 0);
			e.afterwards = w1 && works();
			if (!name.startsWith('rejected')) { try { f(); } catch (er) { e.afterwards = false; e.message2 = String(er && er.message); } }
			if ((starved && !e.threw) || !e.isError || !e.untouched || !e.afterwards) mismatch(e); else rec.samples.push(e);
		}
	},
});
