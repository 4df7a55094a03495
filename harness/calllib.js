'use strict';
// Calls as data: generated, made on any instance of the library (in any thread), and compared with the specification.
const C = require('./common.js');
const { T, encodeRef, decodeRef, crcRef, STATESTR, ENDSTR, B, S, genEncData, genDecData } = C;
const same = (a, b) => a && a.length === b.length && Buffer.compare(Buffer.from(a.buffer, a.byteOffset, a.length), b) === 0;
const pair = v => [v >>> 16, v & 0xffff];
const POLY = (T.crcpoly[0] * 65536 + T.crcpoly[1]) >>> 0;
const times = v => (v & 1) ? ((v >>> 1) ^ POLY) >>> 0 : v >>> 1;
function mul(a, b) { let r = 0; for (let k = 0; k < 32; k++) { r = times(r); if ((b >>> k) & 1) r = (r ^ a) >>> 0; } return r; }
function xpow(n) { let r = 0x80000000, b = 0x40000000; while (n) { if (n & 1) r = mul(r, b); b = mul(b, b); n = Math.floor(n / 2); } return r; }
function limbs(n) { const o = []; do { o.unshift(n & 0xffff); n = Math.floor(n / 65536); } while (n); return o; }
const u32 = v => { const b = Buffer.alloc(4); b.writeUInt32BE(v >>> 0); return b; };
const num = b => (b && b.length === 4) ? Buffer.from(b).readUInt32BE(0) : -1;
const hex = v => ('0000000' + (v >>> 0).toString(16)).slice(-8);
const buf = x => Buffer.isBuffer(x) ? x : Buffer.from(x.buffer, x.byteOffset, x.length);

const KINDS = ['encode', 'encodeTo', 'decode', 'raw', 'decodeTo', 'chunk', 'crc', 'zeroes', 'multiply', 'combine', 'post', 'multi', 'parse', 'bad'];
// a random call of up to n bytes
function gen(g, n, kinds) {
	const k = g.pick(kinds || KINDS), c = { k };
	const enc = () => { const b = Buffer.alloc(n); genEncData(g, n, b); return b; }, dec = e => { const b = Buffer.alloc(n); genDecData(g, n, b, e); return b; };
	switch (k) {
		case 'encode': case 'encodeTo': c.data = enc(); c.ls = g.pick([128, 128, 64, 33, 997, 1]); c.col = g.n(2) ? 0 : g.n(c.ls + 1); break;
		case 'decode': case 'raw': case 'decodeTo': c.data = dec(0.001); c.israw = k === 'raw' || k === 'decodeTo' && g.p(0.5); break;
		case 'chunk': c.data = dec(0.02); c.st = g.n(7); break;
		case 'crc': c.data = enc(); c.a = g.p(0.5) ? 0 : g.u(); break;
		case 'zeroes': c.n = g.p(0.5) ? g.n(70000) : g.u(); c.a = g.u(); break;
		case 'multiply': c.a = g.u(); c.b = g.u(); break;
		case 'combine': c.a = g.u(); c.b = g.u(); c.n = g.p(0.5) ? g.n(70000) : g.u(); break;
		case 'post': c.data = enc(); c.name = 'f' + g.n(1000000); c.ls = g.pick([128, 64, 33, 997]); break;
		case 'multi': c.data = enc(); c.name = 'f' + g.n(1000000); c.ls = g.pick([128, 64, 33]); c.part = Math.max(1, g.n(n)); break;
		case 'parse': c.data = enc(); c.name = 'f' + g.n(1000000); c.raw = g.p(0.5); break;
		case 'bad': c.v = g.n(5); break;
	}
	return c;
}
const outFor = c => c.k === 'encodeTo' ? Buffer.alloc(2 * c.data.length + 2 * Math.ceil(2 * c.data.length / c.ls) + 200, 0x5a) : c.k === 'decodeTo' ? Buffer.alloc(c.data.length + 8, 0x5a) : undefined;
// makes the call; what comes back can be sent between threads
function run(y, c) {
	try {
		switch (c.k) {
			case 'encode': return y.encode(buf(c.data), c.ls, c.col);
			case 'encodeTo': { const o = c.out || outFor(c); return o.subarray(0, y.encodeTo(buf(c.data), o, c.ls, c.col)); }
			case 'decode': case 'raw': return y.decode(buf(c.data), c.israw);
			case 'decodeTo': { const o = c.out || outFor(c); return o.subarray(0, y.decodeTo(buf(c.data), o, c.israw)); }
			case 'chunk': { const r = y.decodeChunk(buf(c.data), STATESTR[c.st]); return { read: r.read, written: r.written, output: r.output, ended: r.ended, state: r.state }; }
			case 'crc': return y.crc32(buf(c.data), u32(c.a));
			case 'zeroes': return y.crc32_zeroes(c.n, u32(c.a));
			case 'multiply': return y.crc32_multiply(u32(c.a), u32(c.b));
			case 'combine': return y.crc32_combine(u32(c.a), u32(c.b), c.n);
			case 'post': return y.post(c.name, buf(c.data), c.ls);
			case 'multi': { const m = y.multi_post(c.name, c.data.length, Math.ceil(c.data.length / c.part), c.ls), o = []; if (c.data.length <= c.part) return m.encode(buf(c.data)); for (let p = 0; p < c.data.length; p += c.part) o.push(m.encode(buf(c.data).subarray(p, p + c.part))); return Buffer.concat(o); }
			case 'parse': { const r = y.from_post(article(c, c.raw), c.raw); return { error: r instanceof Error ? String(r.code) : '', name: r.props && r.props.begin && r.props.begin.name, size: r.props && r.props.begin && r.props.begin.size, data: r.data, crc: r.crc32, warnings: (r.warnings || []).map(w => w.code).join() }; }
			case 'bad': return [() => y.encode('x'), () => y.decode(1), () => y.crc32(), () => y.crc32_combine(Buffer.alloc(3), u32(1), 1), () => y.encode(Buffer.alloc(4), -1)][c.v]();
		}
	} catch (e) { return { threw: String(e && e.message) }; }
}
const head = (name, ls, size, rest) => Buffer.from('=ybegin ' + (rest || '') + 'line=' + ls + ' size=' + size + ' name=' + name + '\r\n');
function article(c, raw) {
	const b = encodeRef(buf(c.data), c.ls || 128, 0), o = [];
	for (let i = 0; i < b.length; i++) { if (raw && b[i] === 46 && (i === 0 || b[i - 1] === 10)) o.push(46); o.push(b[i]); }
	return Buffer.concat([head(c.name, c.ls || 128, c.data.length), Buffer.from(o), Buffer.from('\r\n=yend size=' + c.data.length + ' crc32=' + hex(crcRef(buf(c.data))) + (c.k === 'parse' ? '\r\n' : ''))]);
}
function alone(c) { // what the call yields when made alone, for those that are not judged by the codec and CRC specifications
	switch (c.k) {
		case 'post': return article(c, false);
		case 'multi': {
			const o = [], n = c.data.length, parts = Math.ceil(n / c.part), d = buf(c.data);
			if (parts < 2) return article(c, false);
			for (let p = 0, i = 1; p < n; p += c.part, i++) { const x = d.subarray(p, p + c.part); o.push(head(c.name, c.ls, n, 'part=' + i + ' total=' + parts + ' '), Buffer.from('=ypart begin=' + (p + 1) + ' end=' + (p + x.length) + '\r\n'), encodeRef(x, c.ls, 0), Buffer.from('\r\n=yend size=' + x.length + ' part=' + i + ' pcrc32=' + hex(crcRef(x)) + (i === parts ? ' crc32=' + hex(crcRef(d)) : ''))); }
			return Buffer.concat(o);
		}
		case 'parse': return { error: '', name: c.name, size: String(c.data.length), data: buf(c.data), crc: u32(crcRef(buf(c.data))), warnings: '' };
		case 'bad': return { threw: true };
	}
}
const flat = r => r === undefined ? 'undefined' : r instanceof Uint8Array ? buf(r).toString('hex') : r && r.threw ? 'threw' : JSON.stringify(r, (k, v) => v && v.type === 'Buffer' ? Buffer.from(v.data).toString('hex') : v instanceof Uint8Array ? buf(v).toString('hex') : v);
// [agrees with the specification, event]
function check(c, r) {
	const D = c.data && buf(c.data);
	if (r && r.threw !== undefined && c.k !== 'bad') return [false, { judge: 'TraceWorkers', op: 'alone', call: c.k, failed: 'threw ' + r.threw }];
	try {
		switch (c.k) {
			case 'encode': case 'encodeTo': return [same(r, encodeRef(D, c.ls, c.col)), { judge: 'TraceCodec', op: 'encode', ls: c.ls, col: c.col, data: B(D), out: B(r) }];
			case 'decode': case 'raw': case 'decodeTo': { const m = c.israw ? 'raw' : 'plain'; return [same(r, decodeRef(m, D).o), { judge: 'TraceCodec', op: 'decode', mode: m, data: B(D), out: B(r) }]; }
			case 'chunk': { const x = decodeRef('chunk', D, c.st); return [r.read === x.r && r.ended === (x.end !== 0) && same(r.output, x.o) && r.state === (x.end ? ENDSTR[x.end - 1] : STATESTR[x.st]),
				{ judge: 'TraceCodec', op: 'stream', start: S(STATESTR[c.st]), calls: [{ data: B(D), read: r.read, written: r.written, out: B(r.output), ended: r.ended, state: S(r.state) }] }]; }
			case 'crc': return [num(r) === crcRef(D, c.a), { judge: 'TraceCrc', op: 'crc', data: B(D), init: pair(c.a), out: pair(num(r)) }];
			case 'zeroes': return [num(r) === (~mul(~c.a >>> 0, xpow(8 * c.n))) >>> 0, { judge: 'TraceCrc', op: 'zeroes', neg: false, n: limbs(c.n), x: pair(c.a), out: pair(num(r)) }];
			case 'multiply': return [num(r) === mul(c.a, c.b), { judge: 'TraceCrc', op: 'multiply', x: pair(c.a), y: pair(c.b), out: pair(num(r)) }];
			case 'combine': return [num(r) === ((mul(c.a, xpow(8 * c.n)) ^ c.b) >>> 0), { judge: 'TraceCrc', op: 'combine', x: pair(c.a), y: pair(c.b), n: limbs(c.n), out: pair(num(r)) }];
			default: { const a = flat(alone(c)).replace('{"threw":true}', 'threw'), o = flat(r); return [a === o, { judge: 'TraceWorkers', op: 'alone', call: c.k, out: o, alone: a }]; }
		}
	} catch (e) { if (e instanceof ReferenceError) throw e; return [false, { judge: 'TraceWorkers', op: 'alone', call: c.k, failed: 'returned something else' }]; }
}
module.exports = { outFor, KINDS, gen, run, check, flat, buf, mul, xpow, pair, num, u32, limbs, hex };
