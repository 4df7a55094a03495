'use strict';
// One call of from_post, recorded.
const C = require('./common.js');
const { P, y, B, rec, calling, count } = C;
// keep: called with the recorded event, says whether TLC is to see it (by default all are)
// how: what is passed for isRaw, if not the boolean
function run(art, raw, extra, enc, keep, how) {
	rec.evaluations++;
	enc = enc || 'latin1';
	const from_post = y.from_post, alone = rec.evaluations % 7 === 3, other = rec.evaluations % 5 === 2;   // called detached from the module object; the encoding by another of its names
	const e = Object.assign({ op: P.op || 'reparse', enc, raw, art: B(art) }, extra);
	calling(() => e);
	y.encoding = !other ? enc : enc === 'utf8' ? 'UTF-8' : 'binary';
	const before = Buffer.from(art);
	try {
		const r = alone ? how === undefined ? from_post(art, raw) : from_post(...[art].concat(how)) : how === undefined ? y.from_post(art, raw) : y.from_post.apply(y, [art].concat(how)), x = {};
		if (r instanceof Error) { x.error = String(r.code); count('error ' + x.error); }
		else {
			const cv = s => { if (typeof s !== 'string') throw new Error('property value not a string'); return Array.from(Buffer.from(s, enc)); };
			x.error = '';
			x.yencStart = r.yencStart === undefined ? -1 : r.yencStart; x.yencEnd = r.yencEnd === undefined ? -1 : r.yencEnd;
			x.dataStart = r.dataStart === undefined ? -1 : r.dataStart; x.dataEnd = r.dataEnd === undefined ? -1 : r.dataEnd;
			x.props = Object.keys(r.props).map(t => [cv(t), Object.keys(r.props[t]).map(k => [cv(k), cv(r.props[t][k])])]);
			x.data = r.data === undefined ? [] : B(r.data);
			x.crc = r.crc32 === undefined ? [] : [r.crc32.readUInt16BE(0), r.crc32.readUInt16BE(2)];
			if (r.data !== undefined && !Buffer.isBuffer(r.data) || r.crc32 !== undefined && r.crc32.length !== 4) throw new Error('bad types in result');
			x.warnings = (r.warnings || []).map(w => String(w.code));
			if (r.warnings && !r.warnings.length) throw new Error('empty warnings array');
			x.warnings.forEach(w => count('warning ' + w));
			if (!x.warnings.length) count('clean');
		}
		e.res = x;
	} catch (err) { e.failed = 'threw ' + err.message; }
	if (Buffer.compare(before, art)) e.failed = 'input modified';
	y.encoding = 'utf8';
	if (!keep || e.failed || keep(e)) rec.samples.push(e);
	return e;
}
module.exports = { run, hex: v => ('0000000' + (v >>> 0).toString(16)).slice(-8) };
