#!/usr/bin/env python3
"""mutants.py OUT.jsonl N SEED FILE...   A mutation campaign: small random edits of the given files of /repo, each built in a scratch
copy under /tmp and run against the drivers (and judges) of the checks that cover the file, without the models and the heavy jobs.
Writes one line per mutant: killed (by what), survived, same (no change in the object code) or nobuild.  4 at a time."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True; sys.path.insert(0, V + '/harness')
import lib, engine, props
COVER = [('index.js', 'C07 C13 C12 C10 C14 C16 C15 C17 C05'), ('yencode.cc', 'C17 C10 C07 C01 C04 C05 C08 C09 C03'), ('encoder', 'C01 C02'), ('decoder', 'C04 C06 C05 C03'), ('crc', 'C08 C09'), ('common.h', 'C01 C04 C06 C08'), ('crcutil', 'C08')]
OPS = [(r'(?<![<>=!\-])<(?![<=])', '<='), (r'(?<![<>=\-])>(?![>=])', '>='), (r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'(?<![\w.])(\d+)(?![\w.])', '+1'), (r'(?<![\w.])(\d+)(?![\w.])', '-1'),
       (r'(?<![\w.])0x[0-9a-fA-F]+', 'bit'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+=', '-='), (r'-=', '+='), (r'>> ?(\d+)', 'sh'), (r'<< ?(\d+)', 'sh'), (r'!(?=[\w(])', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+\+', '--'), (r'&(?=[^&])', '|'), (r'\bcontinue\b', 'break'), (r'\bbreak;', ';'),
       (r'_and_si(\d+)', lambda m: '_or_si' + m.group(1)), (r'_or_si(\d+)', lambda m: '_and_si' + m.group(1)), (r'srli', 'slli'), (r'slli', 'srli'), (r'_add_epi8', '_sub_epi8'), (r'A\b', 'B'), (r'B\b', 'A'), (r'\bmask\b', '0'), (r'\|=', '&='), (r"'\\r'", "'\\n'"), (r"'\\n'", "'\\r'"), (r"'='", "'y'"), (r"'\.'", "'='")]
def mutate(rng, src):
    lines = src.split('\n')
    for _ in range(400):
        i = rng.randrange(len(lines)); l = lines[i]; code = l.split('//')[0]
        if not code.strip() or code.strip().startswith(('#', '*', '/*', 'template', 'namespace', 'using', 'static inline', 'extern')): continue
        if rng.random() < 0.12:
            if re.match(r'^\s+[^{}]*;\s*$', code) and not re.search(r'\b(return|const|int|size_t|var|__m\d+i|uint\w+|unsigned|else)\b', code): n = re.match(r'^\s*', l).group(0) + ';'
            elif re.search(r'\bif ?\((.*)\)', code): n = re.sub(r'\bif ?\((.*)\)', lambda m: 'if((%s) && %s)' % (m.group(1), rng.choice(['0', '1 || 1'])) if rng.random() < 0.5 else 'if((%s) || 1)' % m.group(1), l, count=1)
            else: continue
        else:
            pat, rep = rng.choice(OPS); ms = list(re.finditer(pat, code))
            if not ms: continue
            m = rng.choice(ms)
            if rep == '+1': r = str(int(m.group(1)) + 1)
            elif rep == '-1': r = str(int(m.group(1)) - 1)
            elif rep == 'bit': r = hex(int(m.group(0), 16) ^ (1 << rng.randrange(max(4, 4 * (len(m.group(0)) - 2)))))
            elif rep == 'sh': r = m.group(0).replace(m.group(1), str(int(m.group(1)) + rng.choice([1, -1])))
            elif callable(rep): r = rep(m)
            else: r = rep
            n = l[:m.start()] + r + l[m.end():]
        if n != l: return i + 1, l.strip(), n.strip(), '\n'.join(lines[:i] + [n] + lines[i + 1:])
    return None
class Killed(Exception): pass
tl = threading.local()
def run_jobs(ctx, jobs, mcs=()):
    js = [(i, j) for i, j in enumerate(jobs) if not j.heavy and j.variant == 'portable']
    random.Random(1).shuffle(js)
    byjudge = []
    for i, j in js:
        p = dict(j.params); p.update(job=j.job, seed=p.get('seed', engine._seed(ctx, i, j))); p.setdefault('sampleBytes', 300)
        p['tables'] = TABLES
        r = lib.run_driver(j.script, p, tl.pkg, j.level, timeout=120)
        if r['status'] != 'ok': raise Killed('%s %s %s' % (j.name(), r['status'], r.get('output', '')[-150:]))
        x = r['result']
        if x['mismatchCount'] or x.get('uncaught'): raise Killed('%s %d deviating' % (j.name(), x['mismatchCount']))
        if len(x['samples']) > 1 and j.judge in ('TraceParse', 'TracePost', 'TraceApi'): byjudge.append((j, x['samples']))
    for j, ev in byjudge:
        for k in range(0, len(ev), 2500):
            if lib.judge(j.judge, ev[k:k + 2500]): raise Killed('%s judged' % j.name())
engine.run_jobs = props.run_jobs = run_jobs
lib.log = lambda *a: None
engine.log = lib.log
BEHAV = {}
def main():
    global TABLES
    out, N, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    rng = random.Random(seed); W = tempfile.mkdtemp(prefix='mut-', dir='/tmp'); TABLES = lib.gen_tables()
    lock = threading.Lock(); srcs = {f: open('/repo/' + f).read() for f in files}
    gb = lib.gen_behaviours; cache = {}
    def gb2(m, d):
        with lock:
            if (m, d) not in cache: cache[m, d] = gb(m, d)
            return cache[m, d]
    lib.gen_behaviours = gb2
    env = lib._clean_env(); env['CXXFLAGS'] = '-include %s/harness/simcpu.h' % V
    def make(d):
        r = subprocess.run(['node', lib.NODEGYP, 'build', '-j', '2'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return None
        o = d + '/build/Release/yencode.node'
        subprocess.run(['objcopy', '--remove-section=.note.gnu.build-id', '--strip-debug', o, o + '.s'])
        return open(o + '.s', 'rb').read()
    seen = set()
    def worker(k):
        d = W + '/w%d' % k; subprocess.run('mkdir -p %s && cp -a /repo/. %s && rm -rf %s/build %s/_build %s/.git' % (d, d, d, d, d), shell=True)
        subprocess.run(['node', lib.NODEGYP, 'configure', '--nodedir=/usr', '--enable_native_tuning=0'], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        base = make(d); assert base
        while True:
            with lock:
                if main.n >= N or time.time() > main.end: return
                main.n += 1
                for _ in range(50):
                    f = rng.choices(files, [len(srcs[f]) ** 0.5 for f in files])[0]; m = mutate(rng, srcs[f])
                    if m and (f, m[0], m[2]) not in seen: seen.add((f, m[0], m[2])); break
                else: return
            ln, old, new, text = m; open(d + '/' + f, 'w').write(text); t0 = time.time(); res = 'survived'
            b = f.endswith('.js') and base or make(d)
            if b is None: res = 'nobuild'
            elif b == base and not f.endswith('.js'): res = 'same'
            else:
                tl.pkg = d
                for c in next(c for p, c in COVER if p in f).split():
                    try: props.CHECKS[c](engine.Ctx(c, 'quick', str(ln)))
                    except Killed as e: res = 'killed %s: %s' % (c, e); break
                    except Exception as e: res = 'killed? %s: %s' % (c, str(e)[-300:]); break
            open(d + '/' + f, 'w').write(srcs[f])
            if not f.endswith('.js') and res != 'same': make(d)
            with lock:
                open(out, 'a').write(json.dumps(dict(file=f, line=ln, old=old, new=new, res=res, secs=round(time.time() - t0))) + '\n')
    main.n = 0; main.end = time.time() + float(os.environ.get('MINUTES', '60')) * 60
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(int(os.environ.get('PAR', '4')))]
    for t in ts: t.start()
    for t in ts: t.join()
    shutil.rmtree(W, ignore_errors=True)
main()
