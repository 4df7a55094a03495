"""Builds of the addon's C++ sources for other architectures, run under user-mode emulation (see cross/server.cc)."""
import fcntl, json, os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import lib
from lib import CheckError, log

COMMON = ['encoder', 'decoder', 'crc', 'platform', 'yencode']
V8 = ['-march=armv8-a+crc']; V8P = ['-march=armv8-a+crc+crypto']
# name: target, emulator, options for every file, source file -> options of its own (as binding.gyp gives them), and the
# simulated processors: which levels differ in the codec and in CRC, level -> (emulator's CPU model, what the system reports: AT_HWCAP, AT_HWCAP2/hwprobe value, hwprobe present)
ARCHES = {
    'aarch64': dict(codec=['none', 'neon'], crc=['none', 'crc', 'pmull'], target='aarch64-linux-gnu', qemu='qemu-aarch64', opts=[], files=dict(encoder_neon=[], decoder_neon64=[], crc_arm=V8, crc_arm_pmull=V8P), words='64-bit little-endian, ARM',
        levels=dict(none=('max', 0, 0, 0), neon=('max', 2, 0, 0), crc=('max', 0x82, 0, 0), pmull=('max', 0x92, 0, 0))),
    'arm': dict(codec=['none', 'neon'], crc=['none', 'crc'], target='armv7a-linux-gnueabihf', qemu='qemu-arm', opts=['-marm', '-mfpu=vfpv3-d16'], files=dict(encoder_neon=['-mfpu=neon'], decoder_neon=['-mfpu=neon'], crc_arm=V8 + ['-mfpu=fp-armv8'], crc_arm_pmull=V8P + ['-mfpu=crypto-neon-fp-armv8']), words='32-bit little-endian, ARM',
        levels=dict(none=('cortex-a15,neon=off,vfp-d32=off', 0, 0, 0), neon=('cortex-a15', 1 << 12, 0, 0), crc=('max', 1 << 12, 1 << 4, 0), pmull=('max', 1 << 12, 1 << 4 | 1 << 1, 0))),
    'riscv64': dict(codec=['none', 'rvv128', 'rvv256', 'rvv512', 'rvv1024'], crc=['none', 'zbc', 'rvv128'], target='riscv64-linux-gnu', qemu='qemu-riscv64', opts=['-march=rv64gc', '-mabi=lp64d', '-mno-relax'], files=dict(encoder_rvv=['-march=rv64gcv'], decoder_rvv=['-march=rv64gcv'], crc_riscv=['-march=rv64gc_zbkc']), words='64-bit little-endian, RISC-V',
        levels=dict(none=('rv64,v=false,zbc=false,zbkc=false', 0x112D, 0, 0), zbc=('rv64,v=false,zbc=true,zbkc=false', 0x112D, 1 << 7, 1), rvv128=('rv64,v=true,vlen=128,zbc=false,zbkc=true', 0x20112D, 1 << 9, 1),
                    rvv256=('rv64,v=true,vlen=256,zbc=false,zbkc=false', 0x20112D, 0, 1), rvv512=('rv64,v=true,vlen=512,zbc=false,zbkc=false', 0x20112D, 0, 1), rvv1024=('rv64,v=true,vlen=1024,zbc=false,zbkc=false', 0x20112D, 0, 0))),
    'riscv32': dict(codec=['rvv128', 'rvv512'], crc=['none', 'zbc'], target='riscv32-linux-gnu', qemu='qemu-riscv32', opts=['-march=rv32gc', '-mabi=ilp32d', '-mno-relax'], files=dict(encoder_rvv=['-march=rv32gcv'], decoder_rvv=['-march=rv32gcv'], crc_riscv=['-march=rv32gc_zbkc']), words='32-bit little-endian, RISC-V',
        levels=dict(none=('rv32,v=false,zbc=false,zbkc=false', 0x112D, 0, 0), zbc=('rv32,v=false,zbc=true,zbkc=false', 0x112D, 1 << 7, 1), rvv128=('rv32,v=true,vlen=128,zbc=false,zbkc=true', 0x20112D, 1 << 9, 1), rvv512=('rv32,v=true,vlen=512,zbc=false,zbkc=false', 0x20112D, 0, 1))),
    's390x': dict(codec=['none'], crc=['none'], target='s390x-linux-gnu', qemu='qemu-s390x', opts=['-march=z10'], files={}, words='64-bit big-endian', levels=dict(none=('max', 0, 0, 0))),
    'ppc': dict(codec=['none'], crc=['none'], target='powerpc-linux-gnu', qemu='qemu-ppc', opts=['-msecure-plt'], files={}, words='32-bit big-endian', levels=dict(none=('7448', 0, 0, 0))),
    'i386': dict(codec=['sse2', 'ssse3', 'sse41', 'avx', 'avx2'], crc=['sse2', 'sse41', 'avx2'], target='i686-linux-gnu', qemu='qemu-i386', opts=['-march=i686', '-DYENC_DISABLE_CRCUTIL=1', '-msse2'], words='32-bit x86',
        files=dict(encoder_sse2=['-msse2'], decoder_sse2=['-msse2'], encoder_ssse3=['-mssse3'], decoder_ssse3=['-mssse3'], crc_folding=['-mssse3', '-msse4.1', '-mpclmul'], encoder_avx=['-mavx', '-mpopcnt'], decoder_avx=['-mavx', '-mpopcnt'],
                   encoder_avx2=['-mavx2', '-mpopcnt', '-mbmi', '-mbmi2', '-mlzcnt'], decoder_avx2=['-mavx2', '-mpopcnt', '-mbmi', '-mbmi2', '-mlzcnt'], crc_folding_256=['-mavx2', '-mvpclmulqdq', '-mpclmul'],
                   encoder_vbmi2=['-mavx512vbmi2', '-mavx512vl', '-mavx512bw', '-mpopcnt', '-mbmi', '-mbmi2', '-mlzcnt'], decoder_vbmi2=['-mavx512vbmi2', '-mavx512vl', '-mavx512bw', '-mpopcnt', '-mbmi', '-mbmi2', '-mlzcnt']),
        levels=dict(sse2=('max,-ssse3,-sse4.1,-sse4.2,-avx,-avx2,-pclmulqdq', 0, 0, 0), ssse3=('max,-sse4.1,-sse4.2,-avx,-avx2', 0, 0, 0), sse41=('max,-avx,-avx2', 0, 0, 0), avx=('max,-avx2', 0, 0, 0), avx2=('max', 0, 0, 0))),
}
CLANG = 'clang++'

def available():
    if not shutil.which(CLANG) or not shutil.which('ld.lld'): return []
    return [a for a, d in ARCHES.items() if shutil.which(d['qemu'])]

MATTR = dict(aarch64='+crc,+crypto', arm='+v8,+neon,+crc,+crypto', riscv64='+v,+zba,+zbb,+zbc,+zbkc')
def feature(arch, m, ops):
    """The optional feature of spec/Arch.tla that an instruction needs, if any."""
    if arch == 'aarch64':
        if m.startswith('crc32'): return 'CRC32'
        if m.startswith('pmull') and '.1q' in ops: return 'PMULL'
    elif arch == 'arm':
        if m.startswith('crc32'): return 'CRC32'
        if m == 'vmull.p64': return 'PMULL'
        if not m.startswith('v') or m.startswith(('vcvt', 'vpush', 'vpop', 'vmrs', 'vmsr', 'vldr', 'vstr', 'vldm', 'vstm')): return None
        if re.search(r'\bq\d', ops) or re.match(r'v(ld[1-4]|st[1-4]|dup|ext|tb[lx]|rev|zip|uzp|trn|orr|orn|and|bic|bif|bit|bsl|eor|mvn|sw|sh|sra|sri|sl|rsh|q|p|ts|ce|cg|cl|ac)', m) and not m.startswith('vsel'): return 'NEON'
        if re.search(r'\.(i8|u8|s8|i16|u16|s16|i32|u32|s32|i64|u64|s64|p8)$', m) and not m.startswith('vmov'): return 'NEON'
    elif arch == 'riscv64':
        if m.startswith('v'): return 'V'
        if m.startswith('clmul'): return 'CLMUL'
def features(arch, exe):
    """address -> feature, for the instructions that need one"""
    if arch not in MATTR or not shutil.which('llvm-objdump'): return {}
    o = subprocess.run(['llvm-objdump', '-d', '--no-show-raw-insn', '--mattr=' + MATTR[arch], exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout; mp = {}
    for a, t in re.findall(r'^\s*([0-9a-f]+):\s+(\S.*)$', o, re.M):
        w = t.split(None, 1); x = feature(arch, w[0].lower(), w[1] if len(w) > 1 else '')
        if x: mp[int(a, 16)] = x
    return mp

def build(variant, jobs=8):
    """variant: cross-ARCH.  A directory like lib.build's, with `server` (the executable) and cross.json beside index.js."""
    arch = variant[len('cross-'):]; d = ARCHES[arch]
    inc = os.path.join(lib.HARNESS, 'cross/include')
    own = [os.path.join(dp, f) for dp, _, fs in os.walk(os.path.join(lib.HARNESS, 'cross')) for f in sorted(fs)]
    key = lib._key(lib._source_files(), variant, json.dumps(d, sort_keys=True), *[open(f).read() for f in sorted(own)])
    dest = os.path.join(lib.CACHE, 'b-%s-%s' % (variant, key))
    if os.path.exists(os.path.join(dest, 'ok')): return dest
    os.makedirs(lib.CACHE, exist_ok=True)
    with open(os.path.join(lib.CACHE, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, 'ok')): return dest
        for old in os.listdir(lib.CACHE):
            if re.fullmatch('b-%s-[0-9a-f]{20}' % re.escape(variant), old): shutil.rmtree(os.path.join(lib.CACHE, old), ignore_errors=True)
        shutil.rmtree(dest, ignore_errors=True); os.makedirs(os.path.join(dest, 'build/Release')); os.makedirs(os.path.join(dest, 'obj'))
        t0 = time.time(); src = os.path.join(lib.REPO, 'src')
        base = [CLANG, '--target=' + d['target'], '-O3', '-std=c++03', '-ffreestanding', '-fno-exceptions', '-fno-rtti', '-fno-stack-protector', '-fomit-frame-pointer', '-nostdinc++', '-nostdlibinc', '-fno-pic',
                '-isystem', inc, '-Wno-everything', '-fno-threadsafe-statics', '-fno-use-cxa-atexit'] + d['opts']
        here = os.path.join(lib.HARNESS, 'cross')
        todo = [(f, src, []) for f in COMMON] + [(f, src, o) for f, o in d['files'].items()] + [('server', here, ['-std=c++11'])]
        def one(t):
            f, where, o = t; ob = os.path.join(dest, 'obj', f + '.o')
            r = subprocess.run(base + o + ['-c', os.path.join(where, f + '.cc'), '-o', ob], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            # src/yencode.cc may come to use more of V8 than our stand-in offers: then the calls go through our copy of it
            if r.returncode and f == 'yencode' and where == src: log('%s: calls go through harness/cross/gateway.cc' % variant); return one(('gateway', here, ['-I', src]))
            return f, r.returncode, r.stdout, ob
        with ThreadPoolExecutor(jobs) as ex: rs = list(ex.map(one, todo))
        for f, rc, o, _ in rs:
            if rc: shutil.rmtree(dest, ignore_errors=True); raise CheckError('%s: %s.cc does not compile: %s' % (variant, f, o[-1500:]))
        srv = os.path.join(dest, 'server')
        r = subprocess.run([CLANG, '--target=' + d['target'], '-fuse-ld=lld', '-nostdlib', '-static', '-no-pie', '-Wl,-e,_start'] + [x for _, _, _, x in rs] + ['-o', srv], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: shutil.rmtree(dest, ignore_errors=True); raise CheckError('%s does not link: %s' % (variant, r.stdout[-2500:]))
        shutil.rmtree(os.path.join(dest, 'obj'))
        json.dump(features(arch, srv), open(os.path.join(dest, 'features.json'), 'w'))
        shutil.copyfile(os.path.join(lib.REPO, 'index.js'), os.path.join(dest, 'index.js'))
        open(os.path.join(dest, 'build/Release/yencode.node'), 'w').close()
        json.dump(dict(arch=arch, qemu=d['qemu'], server=srv, levels={l: dict(cpu=c, hw=[str(x) for x in hw]) for l, (c, *hw) in d['levels'].items()}), open(os.path.join(dest, 'cross.json'), 'w'))
        open(os.path.join(dest, 'ok'), 'w').close()
        log('built %s in %.1fs' % (variant, time.time() - t0))
    return dest

if __name__ == '__main__':
    import sys
    for a in sys.argv[1:] or ARCHES: 
        try: print(a, build('cross-' + a))
        except CheckError as e: print(a, 'FAILED', e)
