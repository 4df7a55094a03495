"""Shared machinery of the checks: scratch builds of the addon, simulated CPUs, TLC runs, trace judging, evidence."""
import atexit, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('YV_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
CACHE = os.environ.get('YV_CACHE', os.path.join(VERIF, '.cache'))
NODEGYP = '/usr/lib/node_modules/npm/node_modules/node-gyp/bin/node-gyp.js'
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The machinery itself failed (exit code other than 0/1)."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- work directory
_work = None
def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='yv-')
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


# ---------------------------------------------------------------- building /repo's working tree
SKIP_TOP = {'.git', 'build', '_build', 'test', 'node_modules', '.github'}

def _source_files():
    out = []
    for top in sorted(os.listdir(REPO)):
        if top in SKIP_TOP: continue
        p = os.path.join(REPO, top)
        if os.path.isfile(p): out.append(top)
        elif os.path.isdir(p):
            for d, dn, fn in os.walk(p):
                dn.sort()
                for f in sorted(fn): out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out

def _key(files, *extra):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fh: h.update(fh.read())
        h.update(b'\0')
    for e in extra: h.update(str(e).encode() + b'\0')
    return h.hexdigest()[:20]

# build variants: node-gyp variables, compiler wrapper (-march=native replaced)
VARIANTS = {
    'portable':   dict(gyp=['--enable_native_tuning=0']),
    'noavx256':   dict(gyp=['--enable_native_tuning=0', '--disable_avx256=1']),
    'nocrcutil':  dict(gyp=['--enable_native_tuning=0', '--disable_crcutil=1']),
    'nocrcutil-noavx256': dict(gyp=['--enable_native_tuning=0', '--disable_crcutil=1', '--disable_avx256=1']),
    'native':     dict(gyp=['--enable_native_tuning=1']),
    'native-noavx256': dict(gyp=['--enable_native_tuning=1', '--disable_avx256=1']),
}
# natively tuned builds for other machines (name: compiler options, /proc/cpuinfo flags without which it cannot be run here)
MARCH = {
    'x86-64': ('x86-64', []), 'core2': ('core2', ['ssse3']), 'penryn': ('core2 -msse4.1', ['sse4_1']), 'nehalem': ('nehalem', ['sse4_2', 'popcnt']),
    'amdfam10': ('x86-64 -msse3 -mabm -mtune=amdfam10', ['pni', 'abm', 'popcnt']), 'sandybridge': ('sandybridge', ['avx', 'pclmulqdq', 'aes']),
    'haswell': ('haswell', ['avx2', 'bmi1', 'bmi2', 'abm', 'fma', 'movbe', 'f16c']), 'skylake-avx512': ('haswell -mavx512f -mavx512bw -mavx512vl -mavx512dq -mavx512cd -mtune=skylake-avx512', ['avx512vl', 'avx512bw', 'avx512dq', 'avx512cd', 'fma']),
    'icelake': ('haswell -mavx512f -mavx512bw -mavx512vl -mavx512dq -mavx512cd -mavx512vbmi -mavx512vbmi2 -mgfni -mvpclmulqdq -mvaes -mtune=icelake-server', ['avx512vl', 'avx512_vbmi2', 'avx512vbmi', 'gfni', 'vpclmulqdq', 'vaes', 'fma']),
    'alderlake': ('haswell -mpclmul -mgfni -mvpclmulqdq -mtune=alderlake', ['avx2', 'gfni', 'vpclmulqdq', 'fma']),
    'gfni-sse': ('nehalem -mpclmul -mgfni', ['sse4_2', 'pclmulqdq', 'gfni']),
    'atom': ('core2 -mtune=bonnell', ['ssse3']), 'slm': ('nehalem -mtune=silvermont', ['sse4_2', 'popcnt']), 'goldmont': ('nehalem -mpclmul -mtune=goldmont', ['sse4_2', 'popcnt', 'pclmulqdq']),
    'btver1': ('core2 -mabm -mtune=btver1', ['ssse3', 'abm']), 'btver2': ('sandybridge -mabm -mbmi -mtune=btver2', ['avx', 'abm', 'bmi1', 'pclmulqdq', 'aes']),
    'bdver4': ('haswell -mtune=bdver4', ['avx2', 'fma']), 'znver1': ('haswell -mtune=znver1', ['avx2', 'fma']), 'znver4': ('haswell -mtune=znver4', ['avx2', 'fma']),
}
for _m, (_o, _n) in MARCH.items():
    VARIANTS['march-' + _m] = dict(gyp=['--enable_native_tuning=1'], march=_o)
    VARIANTS['march-' + _m + '-noavx256'] = dict(gyp=['--enable_native_tuning=1', '--disable_avx256=1'], march=_o)
VARIANTS['clang'] = dict(gyp=['--enable_native_tuning=0'], cc=('clang', 'clang++'))
def marches(): return [m for m, (o, n) in MARCH.items() if set(n) <= host_flags()]

# every load and store of the library reported to harness/memtrace.h
TRACE_CXX = '-fsanitize=kernel-address --param asan-instrumentation-with-call-threshold=0 --param asan-stack=0 --param asan-globals=0 -include ' + os.path.join(HARNESS, 'memtrace.h')
TRACE_LD = ' '.join('-Wl,--wrap=' + f for f in ('malloc', 'realloc', 'memcpy', 'memmove', 'memset'))
VARIANTS['traced'] = dict(gyp=['--enable_native_tuning=0'], cxx=TRACE_CXX, ld=TRACE_LD)
VARIANTS['traced-noavx256'] = dict(gyp=['--enable_native_tuning=0', '--disable_avx256=1'], cxx=TRACE_CXX, ld=TRACE_LD)

def _clean_env():
    env = {k: v for k, v in os.environ.items() if k not in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CXX_target', 'CC_target', 'YSIM')}
    env.update(CC='gcc', CXX='g++', npm_config_offline='true', npm_config_update_notifier='false')
    env.setdefault('HOME', '/root')
    env['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + env.get('PATH', '')
    return env

def build(variant='portable', jobs=None):
    """Builds a scratch copy of /repo; returns the directory holding index.js and build/Release/yencode.node.
    A tree that does not build is an error of the run, not a violation."""
    if variant.startswith('cross-'):
        import cross
        return cross.build(variant)
    v = VARIANTS[variant]
    files = _source_files()
    key = _key(files, variant, json.dumps(v, sort_keys=True), open(os.path.join(HARNESS, 'simcpu.h')).read(), open(os.path.join(HARNESS, 'memtrace.h')).read() if 'cxx' in v else '')
    dest = os.path.join(CACHE, 'b-%s-%s' % (variant, key))
    if os.path.exists(os.path.join(dest, 'ok')): return dest
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, 'ok')): return dest
        for old in os.listdir(CACHE):       # drop stale builds of this variant
            if re.fullmatch('b-%s-[0-9a-f]{20}' % re.escape(variant), old):
                shutil.rmtree(os.path.join(CACHE, old), ignore_errors=True)
        shutil.rmtree(dest, ignore_errors=True)
        for f in files:
            t = os.path.join(dest, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), t)
        env = _clean_env()
        env['CXXFLAGS'] = '-include ' + os.path.join(HARNESS, 'simcpu.h') + ' ' + v.get('cxx', '')
        if 'ld' in v: env['LDFLAGS'] = v['ld']
        if 'cc' in v: env['CC'], env['CXX'] = v['cc']
        if 'march' in v:
            w = os.path.join(dest, 'cxxwrap'); cw = os.path.join(dest, 'ccwrap')
            for path, real in ((w, 'g++'), (cw, 'gcc')):
                with open(path, 'w') as fh:
                    fh.write('#!/bin/bash\na=()\nfor x in "$@"; do [ "$x" = -march=native ] && x=-march=%s; a+=("$x"); done\nexec %s "${a[@]}"\n' % (v['march'], real))
                os.chmod(path, 0o755)
            env['CXX'] = w; env['CC'] = cw
        t0 = time.time()
        r = subprocess.run(['node', NODEGYP, 'configure', 'build', '--nodedir=/usr', '-j', str(jobs or NPROC)] + v['gyp'],
                           cwd=dest, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(os.path.join(dest, 'build/Release/yencode.node')):
            log(r.stdout[-3000:])
            shutil.rmtree(dest, ignore_errors=True)
            raise CheckError('build of variant %s failed' % variant)
        # keep only what is loaded
        keep = os.path.join(dest, 'yencode.node.keep')
        shutil.copyfile(os.path.join(dest, 'build/Release/yencode.node'), keep)
        shutil.rmtree(os.path.join(dest, 'build'))
        os.makedirs(os.path.join(dest, 'build/Release'))
        os.rename(keep, os.path.join(dest, 'build/Release/yencode.node'))
        open(os.path.join(dest, 'ok'), 'w').close()
        log('built %s in %.1fs' % (variant, time.time() - t0))
    return dest

def build_many(variants):
    with ThreadPoolExecutor(3) as ex:
        return dict(zip(variants, ex.map(lambda v: build(v, jobs=4), variants)))

def build_helper():
    """The guard-page / instruction-recorder helper addon (our own code, under /verif/harness)."""
    src = os.path.join(HARNESS, 'guard.cc')
    key = hashlib.sha256(b''.join(open(os.path.join(HARNESS, f), 'rb').read() for f in ('guard.cc', 'step.inc', 'threadhook.cc'))).hexdigest()[:16]
    dest = os.path.join(CACHE, 'guard-%s.node' % key)
    if os.path.exists(dest): return dest
    os.makedirs(CACHE, exist_ok=True)
    tmp = dest + '.%d.tmp' % os.getpid()
    r = subprocess.run(['g++', '-O2', '-shared', '-fPIC', '-std=c++20', '-w', '-I/usr/include/node', src, '-o', tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise CheckError('helper build failed: ' + r.stdout[-2000:])
    r = subprocess.run(['g++', '-O2', '-shared', '-fPIC', '-w', os.path.join(HARNESS, 'threadhook.cc'), '-o', dest + '.hook.so'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise CheckError('helper build failed: ' + r.stdout[-2000:])
    os.rename(tmp, dest)
    return dest


# ---------------------------------------------------------------- simulated CPUs
# Each level removes features from what the host reports; `need` = /proc/cpuinfo flags without which it duplicates a lower one.
LEVELS = {
    'host':    dict(sim='', need=[]),
    'sse2':    dict(sim='1.0.c&fffffdff', need=[]),                                   # no SSSE3 -> SSE2 kernels, generic CRC
    'ssse3':   dict(sim='1.0.c&fff7ffff', need=['ssse3']),                            # no SSE4.1
    'sse41':   dict(sim='1.0.c&efffffff', need=['sse4_1']),                           # no AVX; CLMUL CRC
    'avx':     dict(sim='7.0.b&ffffffdf', need=['avx']),                              # no AVX2
    'avx2':    dict(sim='7.0.b&3ffeffff;7.1.d&fff7ffff', need=['avx2', 'bmi1', 'bmi2', 'abm']),  # no AVX512/AVX10; VPCLMUL CRC
    'avx2-clmul': dict(sim='7.0.b&3ffeffff;7.1.d&fff7ffff;7.0.c&fffffbff', need=['avx2', 'vpclmulqdq']),  # no VPCLMUL
    'vbmi2':   dict(sim='7.1.d&fff7ffff', need=['avx512_vbmi2', 'avx512bw', 'avx512vl']),
    'nocrc':   dict(sim='1.0.c&fffffffd', need=['pclmulqdq']),                        # no CLMUL -> generic CRC with the best codec
}
def host_flags():
    for line in open('/proc/cpuinfo'):
        if line.startswith('flags'): return set(line.split(':', 1)[1].split())
    return set()
def levels(which=None):
    fl = host_flags()
    return [n for n, l in LEVELS.items() if (which is None or n in which) and all(x in fl for x in l['need'])]
CODEC_LEVELS = ['sse2', 'ssse3', 'sse41', 'avx', 'avx2', 'vbmi2']
CRC_LEVELS = ['sse2', 'sse41', 'avx2']


# ---------------------------------------------------------------- TLC
def tlc(module, cfg=None, workers=None, env=None, timeout=600, heap='3g', extra=(), simulate=None, cwd=None):
    """Runs TLC; returns dict(ok, states, distinct, out, cmd)."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=workdir())
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', TLA_CP, 'tlc2.TLC',
           '-config', cfg or module + '.cfg', '-metadir', meta, '-workers', str(workers or NPROC), '-nowarning', '-noGenerateSpecTE']
    if simulate: cmd += ['-simulate', simulate]
    cmd += list(extra) + [module + '.tla']
    e = dict(os.environ); e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or ''), -1
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    st, di = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    return dict(ok=(rc == 0), rc=rc, states=st, distinct=di, out=out, secs=time.time() - t0, module=module)

def brief(out): return '\n'.join(l for l in out.splitlines() if not re.match('Parsing file|Semantic processing|Linting of', l))[-4000:]

def tlc_mc(module, cfg=None, **kw):
    """Model check the design.  A failure here is a fault of the specification, never of /repo."""
    r = tlc(module, cfg, **kw)
    if not r['ok']:
        log(brief(r['out']))
        raise CheckError('TLC rejected the specification %s (%s), rc %s' % (module, cfg, r['rc']))
    log('TLC %s %s: %d states, %d distinct, %.1fs' % (module, cfg or '', r['states'], r['distinct'], r['secs']))
    return r

def tlc_refute(module, cfg, **kw):
    """A deliberately wrong variant of the design: TLC must find it wrong (the model can tell the difference)."""
    r = tlc(module, cfg, **kw)
    if r['ok'] or not re.search(r'is violated|was violated', r['out']):
        log(brief(r['out'])); raise CheckError('TLC did not refute %s (%s)' % (module, cfg))
    log('TLC %s %s: refuted as expected, %d states, %.1fs' % (module, cfg, r['states'], r['secs']))
    return r

def gen_tables():
    """Exports the specification's transition relations as JSON (evaluated by TLC on every run)."""
    out = os.path.join(workdir(), 'tables.json')
    if not os.path.exists(out):
        r = tlc('Gen', env={'OUT': out}, workers=1)
        if not r['ok'] or not os.path.exists(out):
            log(r['out'][-3000:]); raise CheckError('table export failed')
    return out

def gen_behaviours(module, depth):
    """Behaviours of a specified machine, enumerated by TLC."""
    out = os.path.join(workdir(), '%s-%d.json' % (module, depth))
    r = tlc(module, env={'OUT': out, 'DEPTH': str(depth)}, workers=1)
    if not r['ok'] or not os.path.exists(out): log(brief(r['out'])); raise CheckError('export of behaviours failed: ' + module)
    return out

def judge(module, events, name='trace', workers=1, heap='4g', timeout=800):
    """Validates recorded events against a trace specification.  Returns the list of rejected events' indices (0-based)."""
    if not events: return []
    fd, path = tempfile.mkstemp(prefix=name + '-', suffix='.ndjson', dir=workdir())
    with os.fdopen(fd, 'w') as f:
        for e in events: f.write(json.dumps(e, separators=(',', ':')) + '\n')
    r = tlc(module, env={'TRACE': path}, workers=workers, heap=heap, timeout=timeout)
    m = re.search(r'<<\s*"JUDGED",\s*(\d+),\s*(<<.*?>>|\{.*?\})\s*>>', r['out'], re.S)
    if not r['ok'] or not m or int(m.group(1)) != len(events):
        log(brief(r['out']))
        raise CheckError('trace judge %s did not complete on %d events' % (module, len(events)))
    bad = [int(x) - 1 for x in re.findall(r'\d+', m.group(2))]
    judge.states += r['states']; judge.distinct += r['distinct']; judge.events += len(events)
    log('TLC %s judged %d events, rejected %d, %.1fs' % (module, len(events), len(bad), r['secs']))
    return bad
judge.states = judge.distinct = judge.events = 0


# ---------------------------------------------------------------- drivers
def run_driver(script, params, pkg, level='host', timeout=300, log_calls=None, node_args=()):
    """Runs a node driver in its own process. Returns dict(status, result): status ok|crash|hang|error."""
    d = tempfile.mkdtemp(prefix='drv-', dir=workdir())
    pf, of = os.path.join(d, 'params.json'), os.path.join(d, 'out.json')
    p = dict(params); p.update(pkg=pkg, level=level, out=of, tables=params.get('tables') or gen_tables(), calllog=log_calls)
    with open(pf, 'w') as f: json.dump(p, f)
    env = _clean_env()
    sim = LEVELS[level]['sim'] if level in LEVELS else params.get('sim', '')
    if sim: env['YSIM'] = sim
    env.update(params.get('env') or {})
    try:
        r = subprocess.run(['node', '--stack-size=4000'] + list(node_args) + [os.path.join(HARNESS, script), pf], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return dict(status='hang', output=(x.stdout or b'').decode('latin1')[-2000:], params=p)
    o = r.stdout.decode('latin1')
    if r.returncode == 0 and os.path.exists(of):
        with open(of) as f: res = json.load(f)
        shutil.rmtree(d, ignore_errors=True)
        return dict(status='ok', result=res)
    if r.returncode < 0 or r.returncode in (132, 134, 135, 136, 139):
        return dict(status='crash', code=r.returncode, output=o[-2000:], params=p)
    return dict(status='error', code=r.returncode, output=o[-3000:], params=p)

def parallel(tasks, n=None):
    """tasks: list of zero-argument callables."""
    with ThreadPoolExecutor(n or NPROC) as ex:
        return list(ex.map(lambda t: t(), tasks))


# ---------------------------------------------------------------- known findings, evidence, verdict
def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'finding:\s+property=(\S+)\s+match=(\S+)\s+(.*)', line)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    except FileNotFoundError: pass
    return out

def write_evidence(prop, tier, seed, level, coverage, wall, assumptions=None, violations=0):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    d = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(wall, 2), violations=violations)
    if assumptions: d['assumptions'] = assumptions
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(d, f, indent=1)
