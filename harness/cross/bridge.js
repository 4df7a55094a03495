'use strict';
// Stands in for build/Release/yencode.node: every native call is made in a process that runs the addon's sources for another architecture.
const fs = require('fs'), path = require('path'), cp = require('child_process'), Module = require('module');
const UNDEF = 0, NULL = 1, BOOL = 2, NUM = 3, BUF = 4, STR = 5, OBJ = 6, ERR = 7;
module.exports = function (P) {
	const dir = P.pkg, X = JSON.parse(fs.readFileSync(path.join(dir, 'cross.json'), 'utf8'));
	let L = X.levels[P.level], trace = null;
	if (!L) throw new ReferenceError('no such level ' + P.level);
	const scratch = fs.mkdtempSync(path.join(path.dirname(P.out), 'x')), fin = path.join(scratch, 'in'), fout = path.join(scratch, 'out'), ferr = path.join(scratch, 'err');
	cp.execFileSync('mkfifo', [fin, fout]);
	const stat = { arch: X.arch, level: P.level, calls: 0, restarts: 0, isa: null };
	let child = null, wfd = -1, rfd = -1, msg = Buffer.allocUnsafeSlow(1 << 20), mp = 0, names = [];
	const room = n => { if (mp + n > msg.length) { const m = Buffer.allocUnsafeSlow(Math.max(msg.length * 2, mp + n)); msg.copy(m, 0, 0, mp); msg = m; } };
	const w8 = x => { room(1); msg[mp++] = x; }, w32 = x => { room(4); msg.writeUInt32LE(x >>> 0, mp); mp += 4; };
	const readN = n => { const b = Buffer.allocUnsafe(n); let p = 0; while (p < n) { const r = fs.readSync(rfd, b, p, n - p, null); if (r === 0) return null; p += r; } return b; };
	function exchange() {
		msg.writeUInt32LE(mp - 4, 0);
		try { for (let p = 0; p < mp;) p += fs.writeSync(wfd, msg, p, mp - p); } catch (e) { return null; }
		const l = readN(4); return l && readN(l.readUInt32LE(0));
	}
	function start() {
		fs.writeFileSync(ferr, '');
		child = cp.spawn('sh', ['-c', 'exec setpriv --pdeathsig KILL "$0" -cpu "$1" ' + (trace ? '-d in_asm -D "$6" ' : '') + '"$2" <"$3" >"$4" 2>"$5"', X.qemu, L.cpu, X.server, fin, fout, ferr, trace], { stdio: 'ignore' });
		child.on('error', () => 0); child.unref();
		wfd = fs.openSync(fin, 'w'); rfd = fs.openSync(fout, 'r');
		mp = 4; w8(1); for (const h of L.hw) { const v = BigInt(h); w32(Number(v & 0xffffffffn)); w32(Number(v >> 32n)); }
		const r = exchange();
		if (!r) { stop(); return said(); }
		let p = 1; names = []; for (let i = 0; i < r[0]; i++) { const n = r.readUInt32LE(p); names.push(r.toString('latin1', p + 4, p + 4 + n)); p += 4 + n; }
		stat.isa = [0, 1, 2].map(i => r.readInt32LE(p + 4 * i)); return null;
	}
	function stop() { try { fs.closeSync(wfd); } catch (e) {} try { fs.closeSync(rfd); } catch (e) {} try { child.kill('SIGKILL'); } catch (e) {} child = null; }
	function said() { try { return 'process ended: ' + fs.readFileSync(ferr, 'latin1').slice(-400); } catch (e) { return 'process ended'; } }
	let turn = 0;
	function call(fn, args) {
		if (!child) { stat.restarts++; const e = start(); if (e) throw new Error(e); }
		stat.calls++;
		// Buffers that share memory go together
		const regs = [], where = [];
		args.forEach((a, i) => {
			if (!Buffer.isBuffer(a)) return;
			const lo = a.byteOffset, hi = lo + a.length; let r = regs.find(r => r.ab === a.buffer && lo < r.hi && r.lo < hi);
			if (!r) { r = { ab: a.buffer, lo, hi }; regs.push(r); } else { r.lo = Math.min(r.lo, lo); r.hi = Math.max(r.hi, hi); }
			where[i] = r;
		});
		mp = 4; w8(0); w8(names.indexOf(fn)); w8(regs.length);
		for (const r of regs) { const n = r.hi - r.lo; w32(n); w8((r.lo & 63) | (turn++ % 3 === 0 ? 64 : 0)); room(n); Buffer.from(r.ab, r.lo, n).copy(msg, mp); mp += n; }
		w8(args.length);
		args.forEach((a, i) => {
			if (Buffer.isBuffer(a)) { w8(BUF); w8(regs.indexOf(where[i])); w32(a.byteOffset - where[i].lo); w32(a.length); }
			else if (typeof a === 'number') { w8(NUM); room(8); msg.writeDoubleLE(a, mp); mp += 8; }
			else if (typeof a === 'boolean') { w8(BOOL); w8(a ? 1 : 0); }
			else w8(a === null ? NULL : UNDEF);
		});
		const r = exchange();
		if (!r) { stop(); throw new Error(said()); }
		let p = 2;
		const val = () => {
			const k = r[p++];
			if (k === BOOL) return r[p++] !== 0;
			if (k === NUM) { p += 8; return r.readDoubleLE(p - 8); }
			if (k === STR || k === ERR) { const n = r.readUInt32LE(p); p += 4 + n; return r.toString('latin1', p - n, p); }
			if (k === BUF) { const i = r[p++]; if (i) return args[i - 1]; const n = r.readUInt32LE(p); p += 4 + n; return Buffer.from(r.subarray(p - n, p)); }
			if (k === OBJ) { const o = {}; for (let n = r[p++]; n > 0; n--) { const key = (() => { const l = r.readUInt32LE(p); p += 4 + l; return r.toString('latin1', p - l, p); })(); o[key] = val(); } return o; }
			return k === NULL ? null : undefined;
		};
		const v = val();
		for (const g of regs) { const a = r.readUInt32LE(p), n = r.readUInt32LE(p + 4); p += 8; if (n) r.copy(Buffer.from(g.ab, g.lo, g.hi - g.lo), a, p, p + n); p += n; }
		if (r[0]) throw new Error('memory: ' + ['written outside a Buffer or block', 'block not given back', 'free of what is no block', 'oversized Buffer'].filter((x, i) => r[0] >> i & 1).join(', '));
		if (r[1]) throw new Error(v);
		return v;
	}
	// another processor, from the next call on; with a record of the code that it reaches
	stat.use = function (cpu, hw, traced) {
		if (child) stop();
		L = { cpu, hw }; trace = traced ? path.join(scratch, 'trace') : null; if (trace && fs.existsSync(trace)) fs.unlinkSync(trace);
		const e = start(); return e ? { refused: !/uncaught target signal|abort/.test(e), said: e } : null;
	};
	// the optional features that what was executed needs (the emulator notes each piece of code when it first gets there)
	const need = fs.existsSync(path.join(dir, 'features.json')) ? JSON.parse(fs.readFileSync(path.join(dir, 'features.json'))) : {};
	stat.executed = function () {
		if (child) { fs.closeSync(wfd); wfd = -1; readN(1); stop(); }
		const t = fs.readFileSync(trace, 'latin1'), got = {}, re = /^0x([0-9a-f]+):[^\S\n]*(?:\nOBJD-T: ([0-9a-f]+)((?:\nOBJD-T: [0-9a-f]+)*))?/gm; let n = 0;
		for (let m; (m = re.exec(t));) {
			const a = parseInt(m[1], 16), len = m[2] ? (m[2] + m[3].replace(/\nOBJD-T: /g, '')).length / 2 : 1;
			for (let k = 0; k < len; k += 2) { const x = need[a + k]; if (x) { got[x] = 1; n++; } }
		}
		stat.pieces = t.split('\nIN:').length; return { features: Object.keys(got), instructions: n };
	};
	const native = {}, e = start();
	if (e && !/uncaught target signal|abort/.test(e)) stat.refused = e;                  // this emulator lacks the processor
	for (const n of names.length ? names : ['encode', 'encodeTo', 'decode', 'decodeTo', 'decodeIncr', 'crc32', 'crc32_combine', 'crc32_zeroes', 'crc32_multiply', 'crc32_shift']) native[n] = function (...args) { return call(n, args); };
	const orig = Module._extensions['.node'];
	Module._extensions['.node'] = function (m, f) { if (f.startsWith(dir)) m.exports = native; else return orig(m, f); };
	process.on('exit', () => { if (child) stop(); });
	return stat;
};
