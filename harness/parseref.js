'use strict';
// spec/Parser.tla read out in JavaScript: a filter in front of TLC.  What differs from it, and a selection of what does not, is judged by the specification.
const C = require('./common.js');
const L1 = s => Buffer.from(s, 'latin1');
const letter = c => (c >= 97 && c <= 122) || c === 95, word = c => letter(c) || (c >= 48 && c <= 57);
const whites = { latin1: new Set([9, 10, 11, 12, 13, 32, 160]), utf8: new Set([9, 10, 11, 12, 13, 32]) };
function trim(s, W) { let a = 0, b = s.length; while (a < b && W.has(s.charCodeAt(a))) a++; while (b > a && W.has(s.charCodeAt(b - 1))) b--; return s.slice(a, b); }
function findKey(s) {
	for (let e = s.indexOf('='); e >= 0; e = s.indexOf('=', e + 1)) {
		let i = e; while (i > 0 && word(s.charCodeAt(i - 1))) i--;
		while (i < e && !letter(s.charCodeAt(i))) i++;
		if (i < e) return [i, e];
	}
	return null;
}
function parseLine(line, W, warn) {
	const t = line.slice(2), sp = t.indexOf(' '), tag = sp < 0 ? t : t.slice(0, sp), props = new Map();
	let s = sp < 0 ? '' : trim(t.slice(sp + 1), W);
	for (;;) {
		const k = findKey(s);
		if (!k) { if (s !== '') warn.push('ignored_line_data'); break; }
		const key = s.slice(k[0], k[1]), rest = s.slice(k[1] + 1), whole = tag === 'begin' && key === 'name', p = rest.indexOf(' ');
		if (k[0] !== 0) warn.push('ignored_line_data');
		if (props.has(key)) { warn.push('duplicate_property'); props.delete(key); }
		props.set(key, whole || p < 0 ? rest : rest.slice(0, p));
		s = whole || p < 0 ? '' : rest.slice(p + 1);
	}
	return [tag, props];
}
const digits = v => /^[0-9]+$/.test(v), canonical = v => digits(v) && v.length <= 15 && (v.length === 1 || v[0] !== '0'), crcOk = v => /^[0-9a-fA-F]{8}$/.test(v);
const NUM = [['begin', 'line'], ['begin', 'total'], ['begin', 'part'], ['begin', 'size'], ['part', 'begin'], ['part', 'end'], ['end', 'size'], ['end', 'part']];
function parseRef(art, raw, enc) {
	const a = art.latin1Slice(0, art.length), W = whites[enc], must = [], may = [], y = new Map();
	const first = a.startsWith('=ybegin '), found = first ? 0 : a.indexOf('\r\n=ybegin ');
	if (found < 0) return { error: 'no_start_found' };
	const ys = first ? 0 : found + 2;
	let sp = ys, from = ys + 8, empty = false, at;
	const add = line => { const [t, p] = parseLine(line, W, must); if (y.has(t)) { must.push('duplicate_line'); y.delete(t); } y.set(t, p); };
	for (;;) {
		const p = a.indexOf('\r\n', from);
		if (p < 0) return { error: 'no_end_found' };
		const line = trim(a.slice(sp, p), W); add(line);
		if (line.startsWith('=yend ')) { empty = true; at = p + 2; break; }
		if (!a.startsWith('=y', p + 2)) { at = p + 2; break; }
		sp = from = p + 2;
	}
	const r = { error: '', yencStart: ys, yencEnd: at, dataStart: -1, dataEnd: -1 };
	let data = Buffer.alloc(0);
	if (!empty) {
		const e = a.lastIndexOf('\r\n=yend ');
		if (e < at) return { error: 'no_end_found' };
		const p = a.indexOf('\r\n', e + 8);
		if (p < 0) must.push('missing_yend_newline');
		add(trim(a.slice(e + 2, p < 0 ? a.length : p), W));
		r.yencEnd = p < 0 ? a.length : p + 2; r.dataStart = at; r.dataEnd = e;
		data = C.decodeRef(raw ? 'raw' : 'plain', art.subarray(at, e)).o;
	}
	const val = (t, k) => y.has(t) && y.get(t).has(k) ? y.get(t).get(k) : '';
	const bl = val('begin', 'line'), bs = val('begin', 'size'), es = val('end', 'size'), bp = val('begin', 'part'), bt = val('begin', 'total'), ep = val('end', 'part'), pb = val('part', 'begin'), pe = val('part', 'end');
	if (!bl || !bs || !es || !(y.has('begin') && y.get('begin').has('name'))) return { error: 'missing_required_properties' };
	for (const [t, k] of NUM) {
		const v = val(t, k); if (v === '') continue;
		if (!digits(v)) must.push('invalid_prop_' + k);
		else if (k !== 'size') { if (v === '0') must.push('zero_prop_' + k); else if (/^0+$/.test(v)) may.push('zero_prop_' + k); }
	}
	const chain = (vs, sure, open) => { if (vs.some(v => v !== '' && !canonical(v))) may.push(...open); else { const c = sure(); if (c) must.push(c); } };
	chain([bp, ep, bt], () => bp && ep && bp !== ep ? 'part_number_mismatch' : bt && ((bp && +bt < +bp) || (ep && +bt < +ep)) ? 'part_number_exceeds_total' : '', ['part_number_mismatch', 'part_number_exceeds_total']);
	if (pb && pe) chain([pb, pe, es, bs], () => +pe < +pb ? 'invalid_part_range' : +pe + 1 !== +es + +pb ? 'size_mismatch_part_range' : +bs < +pe ? 'part_range_exceeds_size' : '', ['invalid_part_range', 'size_mismatch_part_range', 'part_range_exceeds_size']);
	else chain([bt, bp, ep], () => [bt, bp, ep].some(v => v !== '' && +v > 1) ? 'missing_part_range' : '', ['missing_part_range']);
	const pc = val('end', 'pcrc32'), fc = val('end', 'crc32');
	if (pc && !crcOk(pc)) must.push('invalid_prop_pcrc32');
	if (fc && !crcOk(fc)) must.push('invalid_prop_crc32');
	chain([bs, es], () => (!bp && bs !== es) || +bs < +es ? 'size_mismatch' : '', ['size_mismatch']);
	const crc = C.crcRef(data), txt = ('0000000' + crc.toString(16)).slice(-8);
	chain([es], () => +es !== data.length ? 'data_size_mismatch' : '', ['data_size_mismatch']);
	const ck = (v, code) => { if (!v) return; if (!crcOk(v)) may.push(code); else if (v.toLowerCase() !== txt) must.push(code); };
	ck(pc, 'pcrc32_mismatch'); if (!y.has('part')) ck(fc, 'crc32_mismatch');
	return Object.assign(r, { y, data, crc, must, may });
}
function splitOk(g, r) {
	if (r.error !== '') return g.error === r.error;
	if (g.error !== '' || g.yencStart !== r.yencStart || g.yencEnd !== r.yencEnd || g.dataStart !== r.dataStart || g.dataEnd !== r.dataEnd || g.props.length !== r.y.size) return false;
	for (const [t, ps] of g.props) {
		const w = r.y.get(L1str(t)); if (!w || w.size !== ps.length) return false;
		for (const [k, v] of ps) if (w.get(L1str(k)) !== L1str(v)) return false;
	}
	if (g.data.length !== r.data.length) return false;
	for (let i = 0; i < g.data.length; i++) if (g.data[i] !== r.data[i]) return false;
	if (r.dataStart < 0 && g.crc.length === 0) return true;
	return g.crc[0] === r.crc >>> 16 && g.crc[1] === (r.crc & 65535);
}
const L1str = a => String.fromCharCode.apply(null, a);
function reportOk(g, r) {
	if (r.error !== '') return true;
	if (g.error !== '') return false;
	const n = {}; for (const c of g.warnings) n[c] = (n[c] || 0) + 1;
	const lo = {}, hi = {}; for (const c of r.must) { lo[c] = (lo[c] || 0) + 1; hi[c] = (hi[c] || 0) + 1; } for (const c of r.may) hi[c] = (hi[c] || 0) + 1;
	for (const c in lo) if ((n[c] || 0) < lo[c]) return false;
	for (const c in n) if (n[c] > (hi[c] || 0)) return false;
	return true;
}
// does the event agree with the specification, as far as this reading of it goes
function agrees(e, art) { const r = parseRef(art, e.raw, e.enc); return e.op === 'split' ? splitOk(e.res, r) : reportOk(e.res, r); }
module.exports = { parseRef, agrees };
