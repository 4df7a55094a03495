'use strict';
// from_post over generated and mutated articles (C15, C16).  Whatever departs from parseref.js, and a spread-out selection of the rest, is judged by TLC.
const C = require('./common.js');
const { P, Rng, encodeRef, crcRef, rec, due, count, main } = C;
const N = P.n || 1;
const L1 = s => Buffer.from(s, 'latin1');

const PL = require('./parselib.js'), { hex } = PL, { agrees } = require('./parseref.js');
let calls = 0;
const HOW0 = [undefined, 0, null, '', undefined, NaN, -0, 0n], HOW1 = [1, 'raw', {}, [], -1, 'false', Infinity, '0', 7n, 0.5, () => false, new Boolean(false)];
function run(art, raw, extra, enc) {
	// isRaw left out, or not a boolean
	const how = ++calls % 4 ? undefined : raw ? [HOW1[(calls >> 2) % HOW1.length]] : (calls >> 2) % 2 ? [] : [HOW0[(calls >> 3) % HOW0.length]];
	const e = PL.run(art, raw, extra, enc, e => {
		if (!agrees(e, art)) {
			count('departing'); if (++rec.departing > 80) throw new C.Enough();
			if (art.length > 12000) { e.failed = 'departs from parseref.js; too long for TLC'; e.art = e.art.slice(0, 2000); delete e.res; }
			return true;
		}
		if (art.length > 4000 || !due() || rec.sampleBytes + art.length + 40 > (P.sampleBytes || 3000)) return false;
		rec.sampleBytes += art.length + 40; return true;
	}, how);
	return e;
}
rec.departing = 0;
function fld(g, name, good, alts) { // a property, present with the right value, altered, or absent
	const k = g.n(100);
	if (k < g.lvl) return g.pick([' ' + name + '=' + g.pick(alts), '', ' ' + name + '=', ' ' + name + '=' + good + ' ' + name + '=' + g.pick(alts)]);
	return ' ' + name + '=' + good;
}
const NUMS = ['0', '1', '2', '3', '5', '9', '10', '11', '12', '99', '100', '128', '4294967295', '4294967296', '123456789012345', '00', '01', '010', '1e3', '0x10', '-1', '+1', '1.0', 'abc', '1a', ' 5', '99999999999999999999', 'NaN', 'Infinity', '\xa05', '१'];
const NUMS2 = NUMS.slice(0, 15);
function article(g) {
	g.lvl = g.pick([0, 0, 3, 10, 30]);
	const n = g.pick([0, 1, 2, 3, 10, g.n(40)]), data = Buffer.alloc(n);
	for (let i = 0; i < n; i++) data[i] = g.p(0.2) ? g.pick(C.ESPECIAL) : g.u();
	const ls = g.pick([128, 128, 64, 10, 3]), crc = crcRef(data);
	const multi = g.p(0.5), total = g.r(1, 4), part = g.r(1, total), off = g.pick([0, 0, 1, g.n(30)]);
	const fsize = multi ? off + n + g.pick([0, 0, 0, 1, 9]) : n;
	const crcs = [hex(crc), hex(crc).toUpperCase(), hex(crc ^ 1), '', '0', 'zzzzzzzz', hex(crc) + '0', hex(crc).slice(1), '00000000', 'FFFFFFFF', hex(~crc), '0x' + hex(crc)];
	const nums = g.p(0.7) ? NUMS2 : NUMS, near = v => g.p(0.6) ? nums : [String(v - 1 < 0 ? 0 : v - 1), String(v + 1), String(v), '0' + v];
	const name = g.pick(['a', 'file name.bin', 'x=y z=1', '', ' lead', 'trail ', 'a\tb', 'name=q', '=yend size=3', 'na\xe9me', '"q" (1/2)', 'part=9']);
	let L = '=ybegin', f = [];
	if (multi || g.n(100) < g.lvl) f.push(fld(g, 'part', part, near(part)), g.p(0.8) ? fld(g, 'total', total, near(total)) : '');
	f.push(fld(g, 'line', ls, nums), fld(g, 'size', fsize, near(fsize)));
	if (g.n(100) < g.lvl) f.sort(() => g.n(3) - 1);
	if (g.n(100) < g.lvl) f.splice(g.n(f.length + 1), 0, g.pick([' junk', '  ', ' =', ' 9=1', ' 9a=1', ' A=1', ' aB=2', ' x=', ' ==', ' a==b', ' _=1', ' __proto__=1', ' toString=a', ' constructor=1', ' a.b=c', '\t', ' é=1', ' a-b=c', ' line=1', ' k=v\tw']));
	L += f.join('') + (g.n(100) < g.lvl ? g.pick(['', ' name', ' Name=' + name]) : ' name=' + name);
	if (g.n(200) < g.lvl) L = L.replace(' ', g.pick(['  ', '\t', ' \t']));
	let hdr = [L];
	if (multi ? g.n(100) >= g.lvl : g.n(100) < g.lvl) hdr.push('=ypart' + fld(g, 'begin', off + 1, near(off + 1)) + fld(g, 'end', off + n, near(off + n)) + (g.n(100) < g.lvl ? ' x=1 stray' : ''));
	if (g.n(100) < g.lvl) hdr.splice(g.r(0, hdr.length), 0, g.pick(['=yfoo a=1', '=y', '=y ', '=y a=1', '=ybegin line=1 size=2 name=z', '=ypart begin=1 end=2', '=yend', '=yendx size=1', '=yconstructor a=b', '=ytoString', '=y__proto__ x=1', '=yend  size=2', '=ypart', '=yx=1', '=y=1 a=2', '=yend\tsize=1', '=yend ', '=y begin=2']));
	let end = '=yend' + fld(g, 'size', n, near(n));
	if (multi || g.n(100) < g.lvl) end += fld(g, 'part', part, near(part)) + fld(g, 'pcrc32', g.p(0.2) ? crcs[1] : crcs[0], crcs);
	if (!multi || g.p(0.4) || g.n(100) < g.lvl) end += fld(g, 'crc32', multi ? hex(g.u()) : g.p(0.2) ? crcs[1] : crcs[0], crcs);
	if (g.n(100) < g.lvl) end += g.pick([' x', ' ', '\t', ' y=2', ' size=' + n, '  size=' + n, ' name=a b', ' =', ' part=1']);
	let body = encodeRef(data, ls, 0);
	const raw = g.p(0.5);
	if (raw && body[0] === 46) body = Buffer.concat([L1('.'), body]);
	if (g.n(100) < g.lvl) body = g.pick([Buffer.concat([body, L1('x')]), body.subarray(1), Buffer.concat([body, L1('\r\n')]), Buffer.concat([L1('=yfoo\r\n'), body]), Buffer.concat([body, L1('\r\n=yend size=1\r\n'), body]), Buffer.concat([body, L1('\r\n=ybegin line=1 size=1 name=x\r\n')]), Buffer.concat([body, L1('=')]), Buffer.concat([L1('..'), body]), Buffer.concat([L1('\r\n.'), body, L1('\r\n..')]), Buffer.concat([body, L1('\r\n.=yend size=9\r\n')]), Buffer.concat([body, L1('\n=yend size=9\n')])]);
	if (body.length && g.n(100) < g.lvl) { body = Buffer.from(body); body[g.n(body.length)] ^= 1 << g.n(8); }
	let pre = g.n(100) < 20 + g.lvl ? g.pick(['\r\n', 'text\r\n', 'a: b\r\n\r\nhello\r\n', 'x', '=ybegin', '=ybegin \n', '\r', '\n', '\r\n=ybegi\r\n', '\r\n=ypart begin=1 end=1\r\n', '.=ybegin \r\n', '\r\n=yend size=1\r\n', ' ', '=ybegin\r\n', '\r\n=ybegin\tx\r\n', '\xff\xfe\r\n']) : '';
	let post = g.n(100) < 90 - g.lvl ? '\r\n' : g.pick(['', '\r', '\n', '\r\n.\r\n', '\r\ntrailing\r\n', '\r\n=yend size=7\r\n', ' \r\n', '\t \r\nx', '\r\n=yend size=0', '\xa0\r\n', '\r\n\r\n=yend size=4 crc32=00000000\r\n.']);
	const sep = g.n(300) < g.lvl ? '\n' : '\r\n';
	let noData = g.n(100) < g.lvl * 0.3;
	return [Buffer.concat(noData ? [L1(pre + hdr.join(sep) + sep + end + post)] : [L1(pre + hdr.join('\r\n') + sep), body, L1(sep + end + post)]), raw];
}
// an article from explicit fields; undefined = left out
function build(f, body) {
	const line = (tag, ks) => '=y' + tag + ks.filter(k => f[tag + '.' + k] !== undefined).map(k => ' ' + k + '=' + f[tag + '.' + k]).join('') + '\r\n';
	const hasPart = ['begin', 'end'].some(k => f['part.' + k] !== undefined) || f.ypart;
	return Buffer.concat([L1(line('begin', ['part', 'total', 'line', 'size', 'name']) + (hasPart ? line('part', ['begin', 'end']) : '')), body, L1('\r\n' + line('end', ['size', 'part', 'pcrc32', 'crc32']))]);
}
function base(multi, data, off, fsize, part, total) {
	const c = hex(crcRef(data)), f = { 'begin.line': 128, 'begin.size': fsize, 'begin.name': 'a b.bin', 'end.size': data.length };
	if (!multi) return Object.assign(f, { 'end.crc32': c });
	return Object.assign(f, { 'begin.part': part, 'begin.total': total, 'part.begin': off + 1, 'part.end': off + data.length, 'end.part': part, 'end.pcrc32': c });
}
const FIELDS = ['begin.part', 'begin.total', 'begin.line', 'begin.size', 'begin.name', 'part.begin', 'part.end', 'end.size', 'end.part', 'end.pcrc32', 'end.crc32'];
const jobs = {
	grid() { // every field of a single- and of a multi-part article at every kind of value, alone; then pairs of fields
		const g = new Rng(P.seed), data = L1('hello yEnc data\xd6\xe0.'), body = encodeRef(data, 128, 0), c = hex(crcRef(data)), n = data.length;
		const crcs = [c, c.toUpperCase(), hex(crcRef(data) ^ 0x01000000), '', '0', c + '0', c.slice(1), '0' + c, 'zzzzzzzz', '00000000', ' ' + c, '0x' + c.slice(2), c.slice(0, 7) + 'g', '-' + c.slice(1)];
		const cfgs = [[false, 0, n, 1, 1], [true, 0, n, 1, 1], [true, 0, n + 9, 1, 2], [true, 7, n + 7, 2, 2], [true, 99, 400, 9, 12]];
		const vals = (k, f) => k.endsWith('crc32') ? crcs : k === 'begin.name' ? ['', 'x', 'a=b c=d', ' q', 'size=9'] : NUMS.concat([+f[k] - 1, +f[k] + 1, '0' + f[k], f[k] + '0', f['begin.size'], f['part.end'], f['begin.total']].filter(v => v !== undefined).map(String));
		let m = 0;
		for (const cf of cfgs) {
			const f0 = base(cf[0], data, cf[1], cf[2], cf[3], cf[4]);
			if (P.part === undefined || P.part === 0) run(build(f0, body), false);
			for (const k of FIELDS) for (const v of [undefined].concat(vals(k, f0))) { if (P.of && m++ % P.of !== P.part) continue; run(build(Object.assign({}, f0, { [k]: v }), body), false); }
		}
		for (let k = 0; k < N; k++) {
			const cf = g.pick(cfgs), f = base(cf[0], data, cf[1], cf[2], cf[3], cf[4]);
			for (let q = g.r(2, 3); q > 0; q--) { const k = g.pick(FIELDS), near = k.endsWith('crc32') || k === 'begin.name' || g.p(0.2); f[k] = g.p(0.1) ? undefined : near ? g.pick(vals(k, f)) : String(Math.max(0, (+f[k] || 1) + g.r(-2, 2))); }
			if (g.p(0.1)) f.ypart = true;
			run(build(f, body), g.p(0.3));
		}
	},
	corrupt() { // damaged data under intact headers: anything that changes the decoded length or CRC has to be reported
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			const n = g.pick([1, 2, 5, 20, 60]), data = Buffer.alloc(n); for (let i = 0; i < n; i++) data[i] = g.p(0.2) ? g.pick(C.ESPECIAL) : g.u();
			const off = g.n(50), f = base(g.p(0.5), data, off, off + n + g.n(5), 2, 3), up = g.p(0.5);
			if (f['end.crc32']) f['begin.size'] = n;
			if (g.p(0.3)) f['end.crc32'] = hex(f['end.pcrc32'] ? g.u() : crcRef(data));
			if (g.p(0.15)) f['end.pcrc32'] = hex(crcRef(data));
			for (const q of ['end.crc32', 'end.pcrc32']) if (f[q] && up) f[q] = f[q].toUpperCase();
			let b = Buffer.from(encodeRef(data, g.pick([128, 10]), 0)); const p = g.n(b.length), kind = g.n(7);
			if (kind === 0) b[p] ^= 1 << g.n(8); else if (kind === 1) b = Buffer.concat([b.subarray(0, p), b.subarray(p + 1)]); else if (kind === 2) b = Buffer.concat([b.subarray(0, p), Buffer.from([g.u()]), b.subarray(p)]);
			else if (kind === 3 && b.length > 1) { const q = g.n(b.length), t = b[p]; b[p] = b[q]; b[q] = t; } else if (kind === 4) b = b.subarray(0, p); else if (kind === 5) b = Buffer.concat([b.subarray(0, p), L1('\r\n'), b.subarray(p)]);
			run(build(f, b), g.p(0.3));
		}
	},
	articles() { const g = new Rng(P.seed); for (let k = 0; k < N; k++) { const [a, raw] = article(g); run(a, raw); } },
	mutated() { // byte-level damage: deletions, insertions, replacements, truncation, splices
		const g = new Rng(P.seed);
		for (let k = 0; k < N; k++) {
			let [a, raw] = article(g); a = Buffer.from(a);
			for (let m = g.r(1, 3); m > 0 && a.length > 4; m--) {
				const p = g.n(a.length), q = Math.min(a.length, p + g.r(1, g.pick([1, 2, 8, 30])));
				a = g.pick([() => Buffer.concat([a.subarray(0, p), a.subarray(q)]), () => Buffer.concat([a.subarray(0, q), a.subarray(p)]), () => a.subarray(0, p), () => a.subarray(p),
					() => { const b = Buffer.from(a); b[p] = g.pick([13, 10, 32, 61, 121, 46, 9, 0, 255, 160, 48 + g.n(10), 97 + g.n(26), 65 + g.n(26)]); return b; },
					() => Buffer.concat([a.subarray(0, p), L1(g.pick(['\r\n', '=', ' ', '=y', '\r\n=yend ', '\r\n=ybegin ', '\r\n=ypart ', 'size=1 ', '\0', '\n', '\r', ' part=2', '=y\r\n', '\t'])), a.subarray(p)])])();
			}
			run(a, raw);
		}
	},
	garbage() { // random byte strings over the header alphabet
		const g = new Rng(P.seed), tok = ['=ybegin ', '=ypart ', '=yend ', '=y', '\r\n', '\r\n', '\r\n', 'line=', 'size=', 'name=', 'part=', 'total=', 'begin=', 'end=', 'crc32=', 'pcrc32=', '0', '1', '2', 'a', ' ', ' ', '\r', '\n', '=', '.', '\xff', '\0', '00000000', '=yend size=1\r\n', '=ybegin line=1 size=1 name=a\r\n'].map(L1);
		for (let k = 0; k < N; k++) { const p = []; if (g.p(0.6)) p.push(tok[0]); for (let i = g.n(25); i >= 0; i--) p.push(g.pick(tok)); run(Buffer.concat(p), g.p(0.5)); }
	},
	extents() { // everything countable made large: header lines, properties, repetitions, the lengths of names, tags, values, whitespace and surroundings
		const g = new Rng(P.seed), size = () => g.pick([0, 1, g.n(20), g.n(20), g.r(30, 70), g.r(120, 140), g.r(250, 262), g.r(500, 520), g.r(1020, 1030), g.r(2040, 2052), g.n(5000)]);
		const few = () => g.pick([1, 2, g.n(8), g.n(40), g.r(60, 70), g.r(125, 132), g.r(250, 260), g.n(400)]);
		const chars = (n, cs) => { let s = ''; while (s.length < n) s += g.pick(cs); return s.slice(0, n); };
		const low = 'abcdefghijklmnopqrstuvwxyz_'.split(''), alnum = low.concat('0123456789'.split('')), any = alnum.concat([' ', ' ', '=', '.', '"', '-', 'A', '\xe9', '\t', '+']), sp = [' ', ' ', '\t', '\x0b'];
		const key = () => g.p(0.3) ? g.pick(['part', 'size', 'line', 'begin', 'end', 'crc32', 'k', 'x1']) : g.pick(low) + chars(g.p(0.7) ? g.n(12) : size(), alnum), val = () => g.p(0.8) ? chars(g.n(6), alnum) : chars(size(), any.filter(c => c !== ' ' && c !== '\t'));
		for (let k = 0; k < N; k++) {
			const n = g.pick([1, 5, g.n(60)]), data = Buffer.alloc(n); for (let i = 0; i < n; i++) data[i] = g.u();
			const which = g.n(8), L = '=ybegin line=128 size=' + n + (which === 7 ? chars(size(), sp) : ''), hdr = [];
			const many = f => { let s = ''; for (let i = few(); i > 0; i--) s += f(); return s; };
			let nm = 'a', pre = '', post = '\r\n', end = '=yend size=' + n + ' crc32=' + hex(crcRef(data)), mid = '', body = encodeRef(data, 128, 0);
			if (which === 0 || g.p(0.1)) nm = chars(size(), any) + 'z';
			if (which === 1 || g.p(0.1)) { const heap = g.p(0.02), one = g.pick([() => '=yx' + g.n(1000), () => '=y' + chars(g.n(9), low) + ' a=' + val(), () => '=yfoo b=1', () => '=y', () => '=yt' + hdr.length + ' k=' + hdr.length]); for (let i = heap ? g.r(990, 4100) : few(); i > 0; i--) hdr.push(one()); }
			if (which === 2 || g.p(0.1)) mid = many(() => ' ' + key() + '=' + val());
			if (which === 3 || g.p(0.1)) end += many(() => ' ' + key() + '=' + val());
			if (which === 4) hdr.push('=y' + chars(size(), any) + (g.p(0.5) ? ' ' + key() + '=' + val() : ''));
			if (which === 5) { pre = many(() => g.pick(['text\r\n', '\r\n', '\r', '\n', '=ybegin', '=y\r\n', '\r\n=ybegi', 'x'])) + chars(size(), any) + '\r\n'; post += many(() => g.pick(['text\r\n', '\r\n', '\r', '\n', '=yend', '=y\r\n', '\r\n=yen', 'x'])); }
			if (which === 6) { body = L1(body.latin1Slice(0) + many(() => g.pick(['\r\n=yend', '\r\n', '=y', '\r\n..', '\r\n=yend size=' + g.n(9), 'a', '\r\n=ybegin ']))); if (g.p(0.4)) end += chars(size(), sp); }
			if (which === 7) end += chars(size(), g.p(0.5) ? sp : any);
			if (g.p(0.1)) end = '=yend' + many(() => ' size=' + n);
			if (g.p(0.05)) mid += ' size=' + '0'.repeat(size()) + n; if (g.p(0.05)) end += ' ' + g.pick(['part', 'size', 'crc32', 'pcrc32']) + '=' + chars(size(), g.pick([['0'], ['1'], alnum]));
			run(Buffer.concat([L1(pre + L + mid + ' name=' + nm + '\r\n' + hdr.map(h => h + '\r\n').join('')), body, L1('\r\n' + end + post)]), g.p(0.5));
		}
	},
	utf8() { // the default encoding: ASCII, and other characters anywhere
		const g = new Rng(P.seed), CH = ['\xe9', '\xdf', '\u20ac', '\u6f22', '\u{1f600}', '\u0301', '\u200b', '\x7f', '\x80', '\xad', '\u0660', '\u212a', '\u{10ffff}', '\u07ff', '\ue000', '\ufffd', '\xaa'].map(c => Buffer.from(c));   // none of them white space to trim()
		for (let k = 0; k < N; k++) {
			let [a, raw] = article(g); a = Buffer.from(a); for (let i = 0; i < a.length; i++) if (a[i] > 127) a[i] &= 127;
			for (let q = g.p(0.7) ? g.r(1, 6) : 0; q > 0; q--) {
				const h = a.indexOf('\r\n=yend'), p = h > 0 && g.p(0.3) ? g.r(h + 2, a.length) : g.p(0.6) && h > 0 ? g.n(h) : g.n(a.length + 1), s = a.indexOf('=ypart'), at = s >= 0 && g.p(0.3) ? Math.min(a.length, s + g.n(30)) : p;
				if (at < a.length && (a[at] & 192) === 128) continue;          // not inside a character
				a = Buffer.concat([a.subarray(0, at), g.pick(CH), a.subarray(at)]);
			}
			run(a, raw, {}, 'utf8');
		}
	},
};
main(jobs);
