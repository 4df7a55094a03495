"""Runs one property's check: model checking of the design, drivers over the real code, TLC judging of what they recorded."""
import hashlib, json, os, re, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
import lib
from lib import log, CheckError, VERIF

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.mc = []            # model-checking results
        self.evals = 0
        self.samples = []
        self.runs = []          # (script, job, level, variant, evaluations)
        self.counters = {}
        self.violations = []    # dicts
        self.validated = 0
        self.notes = []
        self.errors = []
        self.sizes = {}
        self.t0 = time.time()
    def q(self, quick, thorough): return quick if self.quick else thorough

    def violation(self, what, detail):
        self.violations.append(dict(what=what, detail=detail))

class Job:
    def __init__(self, script, job, level='host', variant='portable', judge=None, timeout=None, heavy=False, env=None, **params):
        self.script, self.job, self.level, self.variant, self.judge, self.params, self.timeout, self.heavy, self.env = script, job, level, variant, judge, params, timeout, heavy, env
    def name(self): return '%s/%s@%s/%s' % (self.script, self.job, self.level, self.variant)

def _seed(ctx, i, job):
    return int(hashlib.sha256(('%s|%d|%s' % (ctx.seed, i, job.name())).encode()).hexdigest()[:7], 16)

def run_jobs(ctx, jobs, mcs=()):
    """mcs: list of (module, cfg, kwargs)."""
    lib.gen_tables()
    variants = sorted({j.variant for j in jobs if j.variant})
    pk = lib.build_many(variants) if variants else {}
    def mc(m):
        module, cfg, kw = m
        kw = dict(kw); kw.setdefault('workers', 4)
        return ('mc', (lib.tlc_refute if kw.pop('refute', False) else lib.tlc_mc)(module, cfg, **kw))
    def dr(ij):
        i, j = ij
        p = dict(j.params); p.update(job=j.job, seed=p.get('seed', _seed(ctx, i, j)))
        p.setdefault('sampleBytes', ctx.q(6000, 20000))
        if j.env: p['env'] = j.env
        to = j.timeout or ctx.q(200, 780)
        r = None
        for attempt in range(3):
            r = lib.run_driver(j.script, p, pk.get(j.variant), j.level, timeout=to)
            if r['status'] == 'crash' and r['code'] == -9: continue     # ended from outside (memory)
            break
        if r['status'] == 'crash' and r['code'] == -9: return ('dr', j, p, dict(status='error', code=-9, output='ended from outside (memory)'))
        if r['status'] in ('crash', 'hang'):
            logf = os.path.join(lib.workdir(), 'calls-%d-%d' % (i, os.getpid()))
            r2 = lib.run_driver(j.script, p, pk.get(j.variant), j.level, timeout=to * 1.5 + 60, log_calls=logf)
            last = None
            try:
                lines = open(logf).read().splitlines()
                for l in reversed(lines[-2:]):
                    try: last = json.loads(l); break
                    except ValueError: pass
            except FileNotFoundError: pass
            r['again'] = r2['status']; r['last'] = last
            if r['status'] == 'hang' and r2['status'] == 'ok': r = r2     # was only slow
        return ('dr', j, p, r)
    # jobs that need gigabytes run two at a time
    with ThreadPoolExecutor(lib.NPROC) as ex, ThreadPoolExecutor(2) as hex:
        fs = [ex.submit(mc, m) for m in mcs] + [(hex if ij[1].heavy else ex).submit(dr, ij) for ij in enumerate(jobs)]
        res = [f.result() for f in fs]
    byjudge = {}
    for r in res:
        if r[0] == 'mc': ctx.mc.append(r[1]); continue
        _, j, p, r = r
        if r['status'] == 'error':
            log(r['output']); ctx.errors.append('driver %s failed (exit %s)' % (j.name(), r['code'])); continue
        if r['status'] in ('crash', 'hang'):
            what = 'process crashed (code %s)' % r.get('code') if r['status'] == 'crash' else 'call does not return'
            corrupt = re.search(r'(free|realloc|malloc|calloc)\(\): |double free|corrupt|munmap_chunk|malloc_consolidate|stack smashing', r['output'])
            if r['again'] == 'ok' and r['status'] == 'crash' and r['code'] in (-6, 134, -15) and not corrupt:
                ctx.errors.append('driver %s aborted once: %s' % (j.name(), r['output'][-500:])); continue
            if corrupt: what += ', ' + corrupt.group(0)
            e = dict(r.get('last') or {'op': 'process'}); e['failed'] = what
            ctx.violation('%s in %s' % (what, j.name()), dict(event=e, script=j.script, params=_keep(p), level=j.level, variant=j.variant, output=r['output'][-600:]))
            ctx.runs.append((j.name(), 0)); continue
        x = r['result']
        ctx.evals += x['evaluations']; ctx.runs.append((j.name(), x['evaluations']))
        for k, v in x.get('counters', {}).items(): ctx.counters[k] = ctx.counters.get(k, 0) + v
        log('%-46s %9d executions, %d deviating, %d recorded, %d ms' % (j.name(), x['evaluations'], x['mismatchCount'], len(x['samples']), x['ms']))
        if x.get('uncaught') and not x['mismatchCount']:     # the library threw where the driver only makes calls that must succeed
            e = dict(x['uncaught']); e['last'] = r.get('last')
            ctx.violation('unexpected exception in ' + j.name(), dict(event=e, script=j.script, params=_keep(p), level=j.level, variant=j.variant))
        if j.judge:
            for es, dev in ((x['samples'], False), (x['mismatches'], True)):
                for e in es: byjudge.setdefault(e.pop('judge', j.judge), []).append((e, dev, j, p))
        elif x['mismatchCount']: ctx.errors.append('no judge for deviating events of ' + j.name())
    judge_all(ctx, byjudge)

def _keep(p): return {k: v for k, v in p.items() if k not in ('pkg', 'tables', 'out', 'calllog')}

def judge_all(ctx, byjudge):
    tasks = []
    for module, L in byjudge.items():
        # deviating events first, then an even share per TLC process
        L.sort(key=lambda t: not t[1])
        nproc = max(1, min(ctx.q(6, 8), len(L) // 150), -(-len(L) // 8000))
        for k in range(nproc): tasks.append((module, L[k::nproc]))
    def go(t):
        module, L = t
        bad = lib.judge(module, [e for e, _, _, _ in L], name=module)
        return module, L, set(bad)
    for module, L, bad in lib.parallel([lambda t=t: go(t) for t in tasks], 6):
        ctx.validated += len(L)
        for i, (e, dev, j, p) in enumerate(L):
            if i in bad:
                ctx.violation('%s rejects what %s did' % (module, j.name()), dict(event=e, judge=module, script=j.script, params=_keep(p), level=j.level, variant=j.variant))
            elif dev:
                ctx.errors.append('driver %s considered an execution deviating that %s accepts: %s' % (j.name(), module, json.dumps(e)[:600]))
        for e, dev, j, p in L:
            if not dev and len(ctx.samples) < 6 and len(json.dumps(e)) < 1500 and (not ctx.samples or ctx.samples[-1]['by'] != j.name()):
                ctx.samples.append(dict(by=j.name(), event=e))

def finish(ctx, level='model_checking'):
    wall = time.time() - ctx.t0
    known = lib.known_findings(ctx.prop)
    new, seen = [], set()
    for v in ctx.violations:
        s = json.dumps(v['detail'].get('event', v['detail']), sort_keys=True)
        k = next((t for pat, t in known if pat in s or pat in v['what']), None)
        if k is None: new.append(v)
        elif k not in seen: seen.add(k); log('KNOWN-FINDING: property=%s %s' % (ctx.prop, k))
    states = sum(m['distinct'] for m in ctx.mc); trans = sum(m['states'] for m in ctx.mc)
    if not ctx.samples: ctx.samples.append(dict(note='no sample recorded'))
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=ctx.validated, samples=ctx.samples[:6],
               evaluations=ctx.evals,
               rule='executions of the real code compared with the relations TLC exports from the specification; '
                    'every deviating one, and a spread-out selection of the others (traces_validated_against_impl), is judged by TLC itself',
               models=[dict(module=m['module'], distinct=m['distinct'], generated=m['states'], secs=round(m['secs'], 1)) for m in ctx.mc],
               runs={n: e for n, e in ctx.runs}, counters=ctx.counters)
    if ctx.notes: cov['notes'] = ctx.notes
    lib.write_evidence(ctx.prop, ctx.tier, ctx.seed, level, cov, wall, violations=len(new))
    if new:
        d = os.path.join(VERIF, 'replay'); os.makedirs(d, exist_ok=True)
        for n, v in enumerate(new[:3]):
            path = os.path.join(d, '%s-%d.json' % (ctx.prop, n + 1))
            v['property'] = ctx.prop
            with open(path, 'w') as f: json.dump(v, f, indent=1)
            log('violated: ' + v['what']); log('  ' + json.dumps(v['detail'].get('event', v['detail']))[:1500])
            log('VIOLATION property=%s replay=%s' % (ctx.prop, path))
        return 1
    if ctx.errors:
        for e in ctx.errors[:5]: log('ERROR: ' + e)
        return 2
    log('%s held: %d executions, %d traces judged by TLC, %d model states, %.0fs' % (ctx.prop, ctx.evals, ctx.validated, states, wall))
    return 0

def replay(path):
    v = json.load(open(path)); d = v['detail']
    log('recorded: %s' % v['what']); log(json.dumps(d.get('event'))[:3000])
    if d.get('judge') and d.get('event'):
        bad = lib.judge(d['judge'], [d['event']]); log('judged again by %s: %s' % (d['judge'], 'rejected' if bad else 'accepted'))
    if d.get('script'):
        pkg = lib.build(d['variant']); p = dict(d['params'])
        r = lib.run_driver(d['script'], p, pkg, d['level'])
        if r['status'] != 'ok': log('re-executed: %s %s' % (r['status'], r.get('output', '')[-500:])); return 1
        x = r['result']; log('re-executed %s at %s: %d executions, %d deviating' % (d['script'], d['level'], x['evaluations'], x['mismatchCount']))
        if x['mismatches']:
            bad = lib.judge(d['judge'], x['mismatches']); log('TLC rejects %d of them' % len(bad)); return 1 if bad else 0
    return 0

def main(argv):
    if argv and argv[0] == '--replay': return replay(argv[1])
    if argv and argv[0] == '--setup':       # tools present, the specification parses, the helper compiles
        lib.build_helper(); lib.gen_tables(); log('ready; implementation levels here: ' + ' '.join(lib.levels())); return 0
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    import props
    try:
        ctx = Ctx(prop, tier, seed)
        props.CHECKS[prop](ctx)
        return finish(ctx)
    except CheckError as e:
        log('CHECK ERROR: %s' % e)
    except Exception:
        traceback.print_exc()
    # a violation already established stands even if something later failed
    if ctx.violations:
        ctx.notes.append('the check did not complete'); return finish(ctx)
    return 2
