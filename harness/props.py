"""What each property's check runs."""
from engine import Job, run_jobs
import lib

def codec_levels(ctx): return [l for l in lib.CODEC_LEVELS if l in lib.levels()] or ['host']
def crc_levels(ctx): return [l for l in lib.CRC_LEVELS if l in lib.levels()] or ['host']

MC_CODEC = lambda ctx: [('MCCodec', 'MCCodec.cfg' if ctx.quick else 'MCCodec_deep.cfg', dict(timeout=800)), ('MCEncBlocks', 'MCEncBlocks.cfg' if ctx.quick else 'MCEncBlocks_deep.cfg', dict(timeout=800))]
MC_STREAM = lambda ctx: [('MCStream', 'MCStream.cfg' if ctx.quick else 'MCStream_deep.cfg', dict(timeout=800))] + MC_BLOCKS(ctx)
MC_BLOCKS = lambda ctx: [('MCBlocks', 'MCBlocks.cfg' if ctx.quick else 'MCBlocks_deep.cfg', dict(timeout=800))]
MC_CRC = lambda ctx: [(m, m + ('.cfg' if ctx.quick else '_deep.cfg'), dict(timeout=800)) for m in ('MCCrc', 'MCCrcBlocks')]

def big_jobs(ctx, jobs, levels, judge='TraceCodec', n=(16, 160), huge=(), **kw):
    """Megabytes at every level; more than 2 GiB at every level, more than 4 GiB at the host's."""
    J = []
    for l in levels:
        for j in jobs: J.append(Job('big.js', j, level=l, judge=judge, n=ctx.q(*n), **kw))
        for j, hk in huge: J.append(Job('big.js', j, level=l, judge=judge, heavy=True, **hk))
    for j, hk in huge:
        if 'mins' not in hk:
            for l in (levels[-1:] if ctx.quick else levels): J.append(Job('big.js', j, level=l, judge=judge, heavy=True, min=4294967296, inst=4, **hk))
    return J

def C01(ctx):
    J = []
    for l in codec_levels(ctx):
        a = dict(level=l, judge='TraceCodec')
        J += [Job('codec.js', 'encRandom', n=ctx.q(80000, 1000000), **a), Job('codec.js', 'encSlide', **a), Job('codec.js', 'encBytes', **a),
              Job('codec.js', 'encLengths', maxLen=ctx.q(800, 2000), per=ctx.q(20, 60), **a), Job('codec.js', 'encLong', n=ctx.q(30, 300), **a), Job('codec.js', 'encMasks', n=ctx.q(12, 120), **a), Job('codec.js', 'encMax', n=ctx.q(5000, 100000), **a), Job('codec.js', 'encVast', n=ctx.q(1500, 30000), **a), Job('codec.js', 'encWindows', n=ctx.q(80, 1500), **a)]
        if not ctx.quick:
            J.append(Job('codec.js', 'encWindows', n=60, L=8, **a))
            J += [Job('codec.js', 'encSlide', sizes=list(range(k, k + 12)), **a) for k in (12, 24, 36, 48, 60, 72)]
            J += [Job('codec.js', 'encBytes', sizes=list(range(k, 300, 8)), **a) for k in range(1, 9)]
    J += big_jobs(ctx, ['enc'], codec_levels(ctx), huge=[('hugeEnc', {})])
    run_jobs(ctx, J, MC_CODEC(ctx))

def C02(ctx):
    J = []
    for l in codec_levels(ctx):
        a = dict(level=l, judge='TraceCodec')
        J += [Job('codec.js', 'transport', n=ctx.q(60000, 800000), **a)]
        if not ctx.quick: J += [Job('codec.js', 'transport', n=1000, sizes=list(range(k, 140, 7)), **a) for k in range(4, 11)]
    J += big_jobs(ctx, ['transport'], codec_levels(ctx), n=(30, 400))
    run_jobs(ctx, J, MC_CODEC(ctx))

def C03(ctx):
    J = []
    for l in codec_levels(ctx):
        a = dict(level=l, judge='TraceCodec')
        J += [Job('codec.js', 'roundtrip', n=ctx.q(50000, 600000), maxLen=ctx.q(600, 1500), per=ctx.q(12, 40), **a)]
    J += big_jobs(ctx, ['rt'], codec_levels(ctx), n=(60, 800))
    run_jobs(ctx, J, MC_CODEC(ctx))
    # every pair of levels: produced by one, consumed by another
    import os
    ls = codec_levels(ctx)
    xs = {l: os.path.join(lib.workdir(), 'exchange-' + l) for l in ls}
    run_jobs(ctx, [Job('codec.js', 'produce', level=l, n=ctx.q(4000, 20000), exchange=xs[l]) for l in ls])
    run_jobs(ctx, [Job('codec.js', 'consume', level=m, exchange=xs[l], judge='TraceCodec', sampleBytes=2000) for l in ls for m in ls if l != m and os.path.exists(xs[l])])

def C04(ctx):
    J = []
    for l in codec_levels(ctx):
        a = dict(level=l, judge='TraceCodec')
        J += [Job('codec.js', 'decRandom', n=ctx.q(80000, 1000000), **a), Job('codec.js', 'decSlide', alignStep=ctx.q(9, 1), **a),
              Job('codec.js', 'decLengths', maxLen=ctx.q(800, 2000), per=ctx.q(24, 80), **a), Job('codec.js', 'decLong', n=ctx.q(40, 400), **a), Job('codec.js', 'decMasks', n=ctx.q(24, 240), **a), Job('codec.js', 'decWindows', n=ctx.q(8, 60), **a)]
        if not ctx.quick: J.append(Job('codec.js', 'decWindows', n=4, L=7, **a))
        for f in ctx.q([0, 30, 60, 127], list(range(0, 200, 9))): J.append(Job('codec.js', 'decTails', **{'from': f, 'to': f + ctx.q(3, 8)}, **a))
    J += big_jobs(ctx, ['dec'], codec_levels(ctx), huge=[('hugeDec', dict(mode='plain')), ('hugeDec', dict(mode='raw'))])
    run_jobs(ctx, J, MC_STREAM(ctx))

def stream_jobs(ctx, op, levels, variant='portable'):
    J = []
    for l in levels:
        a = dict(level=l, judge='TraceCodec', op=op, variant=variant)
        J += [Job('stream.js', 'random', n=ctx.q(50000, 800000), **a), Job('stream.js', 'splits', n=ctx.q(1200, 20000), **a),
              Job('stream.js', 'slide', reps=ctx.q(12, 100), **a), Job('stream.js', 'heads', n=ctx.q(24, 120), **a), Job('stream.js', 'long', n=ctx.q(30, 300), **a), Job('stream.js', 'windows', n=ctx.q(8, 60), **a)]
        if not ctx.quick: J.append(Job('stream.js', 'windows', n=4, L=7, **a))
        for f in ctx.q([0, 15, 29, 61], list(range(0, 200, 9))): J.append(Job('stream.js', 'tails', **{'from': f, 'to': f + ctx.q(3, 8)}, **a))
    return J
def C05(ctx): run_jobs(ctx, [held(ctx, 'chunk')] + stream_jobs(ctx, 'stream', codec_levels(ctx)) + big_jobs(ctx, ['stream'], codec_levels(ctx), n=(40, 400), op='stream', huge=[('hugeDec', dict(mode='chunk'))]), MC_STREAM(ctx))
def C06(ctx): run_jobs(ctx, stream_jobs(ctx, 'end', codec_levels(ctx)) + big_jobs(ctx, ['stream'], codec_levels(ctx), n=(40, 400), op='end', huge=[('hugeDec', dict(mode='chunk'))]), MC_STREAM(ctx))

def C08(ctx):
    J = []
    for l in crc_levels(ctx):
        a = dict(level=l, judge='TraceCrc')
        J += [Job('crc.js', 'lengths', to=ctx.q(1200, 4000), per=ctx.q(64, 64), **a), Job('crc.js', 'lengths', to=160, per=64, **a), Job('crc.js', 'random', n=ctx.q(60000, 600000), **a),
              Job('crc.js', 'long', n=ctx.q(60, 600), **a), Job('crc.js', 'basis', **a), Job('crc.js', 'linear', all=ctx.q(0, 1), to=ctx.q(260, 330), **a), Job('crc.js', 'pieces', n=ctx.q(30000, 300000), **a)]
    J += big_jobs(ctx, ['crc'], crc_levels(ctx), 'TraceCrc', n=(120, 1200), huge=[('hugeCrc', dict(mins=[2147483648, 4294967296]))])
    run_jobs(ctx, J, MC_CRC(ctx))

def C09(ctx):
    J = []
    for l in crc_levels(ctx):
        a = dict(level=l, judge='TraceCrc')
        J += [Job('crc.js', 'join', n=ctx.q(20000, 200000), **a), Job('crc.js', 'algebra', n=ctx.q(80000, 1000000), **a), Job('crc.js', 'small', maxExp=ctx.q(8000, 100000), **a)]
    run_jobs(ctx, J, MC_CRC(ctx))

held = lambda ctx, only: Job('workers.js', 'held', n=ctx.q(1500, 30000), only=only, judge='TraceWorkers', sampleBytes=ctx.q(20000, 100000), sampleGrow=1.05)
def parse_jobs(ctx, op, plan):
    """plan: job -> (calls in the quick tier, in the thorough tier)"""
    J = [held(ctx, 'parse')]
    for job, (q, t) in plan.items():
        parts = ctx.q(2, 6)
        for k in range(parts):
            kw = dict(of=parts, part=k) if job == 'grid' else dict(inst=k)
            J.append(Job('parse.js', job, judge='TraceParse', op=op, n=ctx.q(q, t) // parts, sampleBytes=ctx.q(300000, 600000), sampleGrow=1.001, sampleStep=ctx.q(25, 60), **kw))
        if job not in ('grid', 'extents'): # as loaded by an old Node
            J += [Job('parse.js', job, judge='TraceParse', op=op, legacy=l, n=ctx.q(q, t) // 20, sampleBytes=ctx.q(60000, 200000), sampleGrow=1.001, sampleStep=60, inst=k) for k, l in enumerate([1, 2], 20)]
    return J
def C15(ctx): run_jobs(ctx, [Job('post.js', 'large', n=ctx.q(150, 2000), judge='TraceParse')] + parse_jobs(ctx, 'split', dict(articles=(300000, 6000000), mutated=(400000, 8000000), garbage=(200000, 4000000), utf8=(150000, 3000000), extents=(12000, 300000))), MC_PARSER(ctx))
def C16(ctx): run_jobs(ctx, [Job('post.js', 'large', n=ctx.q(300, 4000), damage=1, judge='TraceParse')] + parse_jobs(ctx, 'report', dict(grid=(150000, 3000000), corrupt=(300000, 6000000), articles=(300000, 6000000), mutated=(200000, 3000000), extents=(12000, 300000))), MC_PARSER(ctx))

MC_PARSER = lambda ctx: [('MCParser', 'MCParser.cfg' if ctx.quick else 'MCParser_deep.cfg', dict(timeout=850))]
MC_MULTI = lambda ctx: [('MCMulti', 'MCMulti.cfg' if ctx.quick else 'MCMulti_deep.cfg', dict(timeout=850))]

def C12(ctx):
    a = dict(judge='TracePost', sampleBytes=ctx.q(100000, 400000), sampleGrow=1.02, sampleStep=3)
    run_jobs(ctx, [Job('post.js', 'posts', n=ctx.q(500000, 8000000), **a), Job('post.js', 'posts', n=ctx.q(50000, 800000), legacy=2, inst=9, **a), Job('post.js', 'names', step=ctx.q(2, 1), **a), Job('post.js', 'single', n=ctx.q(200000, 3000000), **a),
                   *[Job('post.js', 'bulk', n=ctx.q(120, 1500), inst=k, **a) for k in range(ctx.q(2, 4))]], MC_MULTI(ctx))
def C13(ctx):
    a = dict(judge='TracePost', sampleBytes=ctx.q(100000, 400000), sampleGrow=1.02, sampleStep=3)
    run_jobs(ctx, [held(ctx, 'post'), Job('post.js', 'behaviours', behaviours=lib.gen_behaviours('GenMulti', ctx.q(4, 6)), **a), *[Job('post.js', 'histories', n=ctx.q(25000, 400000), inst=k, **a) for k in range(ctx.q(3, 6))],
                   Job('post.js', 'single', n=ctx.q(150000, 2000000), **a), Job('post.js', 'bulk', n=ctx.q(120, 1500), inst=7, **a), Job('post.js', 'big', **a), Job('post.js', 'many', parts=ctx.q([10001, 131075], [10001, 70000, 131075, 1000003]), **a), Job('post.js', 'starved', guard=lib.build_helper(), heavy=True, **a),
                   Job('post.js', 'huge', heavy=True, seqs=ctx.q([[0, 1]], [[0, 1], [1, 0], [1], [1, 1, 0]]), **a)], MC_MULTI(ctx))
def C14(ctx):
    J = []
    for k in range(ctx.q(2, 8)):
        J += [Job('post.js', 'reparse', n=ctx.q(40000, 500000), judge='TraceParse', inst=k, sampleBytes=ctx.q(100000, 500000), sampleGrow=1.02, sampleStep=3), Job('post.js', 'reparse', n=ctx.q(1200, 6000), files=1, judge='TracePost', inst=k)]
    J += [Job('post.js', 'large', n=ctx.q(250, 4000), judge='TraceParse', inst=k) for k in range(ctx.q(2, 6))]
    run_jobs(ctx, J, MC_MULTI(ctx))

MC_API = lambda ctx: [('MCApi', 'MCApi.cfg' if ctx.quick else 'MCApi_deep.cfg', dict(timeout=850))]
def C07(ctx):
    a = dict(judge='TraceApi', sampleBytes=ctx.q(60000, 300000), sampleGrow=1.03, sampleStep=5)
    J = [held(ctx, 'chunk'), Job('api.js', 'chunkStates', maxLen=ctx.q(5, 7), **a)]
    for k in range(ctx.q(4, 8)): J.append(Job('api.js', 'chunkForms', n=ctx.q(500000, 6000000), inst=k, **a))
    run_jobs(ctx, J, MC_API(ctx) + MC_STREAM(ctx)[:1])
def C10(ctx):
    a = dict(judge='TraceApi', sampleBytes=ctx.q(60000, 300000), sampleGrow=1.03, sampleStep=5)
    run_jobs(ctx, [Job('api.js', 'sizes', n=ctx.q(3000, 20000), **a), Job('api.js', 'extremes', n=ctx.q(400000, 8000000), **a), Job('api.js', 'gates', n=ctx.q(300000, 4000000), **a), Job('api.js', 'huge', crc=ctx.q(0, 1), **a)],
             MC_API(ctx) + MC_CODEC(ctx)[:1])
def C17(ctx):
    a = dict(judge='TraceApi', sampleBytes=ctx.q(60000, 300000), sampleGrow=1.03, sampleStep=5)
    run_jobs(ctx, [Job('api.js', 'args', **a), Job('api.js', 'gates', n=ctx.q(400000, 4000000), **a)] + [Job('api.js', 'args', level=l, **a) for l in ([] if ctx.quick else codec_levels(ctx))], MC_API(ctx))

MC_FOOT = lambda ctx: [('MCFootprint', 'MCFootprint.cfg' if ctx.quick else 'MCFootprint_deep.cfg', dict(timeout=800))]
def C11(ctx):
    gd = lib.build_helper(); J = []
    for l in codec_levels(ctx):
        a = dict(level=l, judge='TraceMem', guard=gd)
        J += [Job('mem.js', 'access', variant='traced', n=ctx.q(200000, 1500000), maxLen=ctx.q(600, 1100), per=ctx.q(6, 30), **a),
              Job('mem.js', 'edge', n=ctx.q(200000, 2000000), maxLen=ctx.q(600, 1100), per=ctx.q(10, 50), **a), Job('mem.js', 'change', n=ctx.q(100000, 1000000), **a)]
    for l in (['host', 'sse2'] if ctx.quick else codec_levels(ctx)): J.append(Job('mem.js', 'retained', level=l, n=ctx.q(150000, 1000000), judge='TraceMem', env=dict(MALLOC_PERTURB_='165')))
    J.append(Job('mem.js', 'longlived', n=ctx.q(60000, 1000000), judge='TraceMem'))
    if not ctx.quick:
        for l in codec_levels(ctx): J += [Job('mem.js', 'access', level=l, variant='traced-noavx256', judge='TraceMem', guard=gd, n=150000, maxLen=600, per=4), Job('mem.js', 'edge', level=l, variant='noavx256', judge='TraceMem', guard=gd, n=60000, maxLen=600, per=6)]
    J.append(held(ctx, None))
    run_jobs(ctx, J, MC_FOOT(ctx))

def core_jobs(ctx, v, level=None):
    """A condensed selection of the codec, stream and CRC drivers for one build."""
    J = []
    for l in ([level] if level else codec_levels(ctx)):
        a = dict(variant=v, level=l, judge='TraceCodec', sampleBytes=ctx.q(1500, 6000))
        J += [Job('codec.js', 'encRandom', n=ctx.q(2500, 50000), **a), Job('codec.js', 'encLengths', maxLen=ctx.q(300, 800), per=ctx.q(3, 10), **a), Job('codec.js', 'encSlide', sizes=ctx.q([24, 40], list(range(16, 50, 3))), **a),
              Job('codec.js', 'decRandom', n=ctx.q(2500, 60000), **a), Job('codec.js', 'decLengths', maxLen=ctx.q(300, 800), per=ctx.q(4, 12), **a), Job('codec.js', 'decTails', **{'from': 60, 'to': ctx.q(62, 70)}, **a),
              Job('stream.js', 'random', op='stream', n=ctx.q(2500, 50000), **a), Job('stream.js', 'splits', op='end', n=ctx.q(60, 1200), **a), Job('stream.js', 'slide', op='end', reps=ctx.q(1, 6), **a)]
    for l in ([level] if level else crc_levels(ctx)):
        a = dict(variant=v, level=l, judge='TraceCrc', sampleBytes=ctx.q(1500, 6000))
        J += [Job('crc.js', 'lengths', to=ctx.q(300, 1500), per=ctx.q(8, 24), **a), Job('crc.js', 'random', n=ctx.q(1500, 30000), **a), Job('crc.js', 'algebra', n=ctx.q(1000, 20000), **a)]
    return J
MC_DISPATCH = lambda ctx: [('MCDispatch', 'MCDispatch.cfg' if ctx.quick else 'MCDispatch_deep.cfg', dict(timeout=800))]
def C19(ctx):
    import isa, os
    # simulated processors: which extensions are executed, and whether the results are right
    gd = lib.build_helper(); cpus = lib.gen_behaviours('GenCpu', ctx.q(1, 2))
    variants = ['portable', 'noavx256', 'nocrcutil'] if ctx.quick else ['portable', 'noavx256', 'nocrcutil', 'nocrcutil-noavx256']
    pk = lib.build_many(variants); J = []
    for v in variants:
        node, mp = os.path.join(lib.workdir(), v + '.node'), os.path.join(lib.workdir(), v + '.isa')
        if not all(isa.prepare(os.path.join(pk[v], 'build/Release/yencode.node'), node, mp)): raise lib.CheckError('no cpuid instruction found in ' + v)
        parts = ctx.q(3 if v == 'portable' else 2, 8)
        for k in range(parts): J.append(Job('dispatch.js', 'cpus', variant=v, judge='TraceDispatch', guard=gd, cpus=cpus, patched=node, isamap=mp, of=parts, part=k, inst=k))
    # builds with other options, and (at run time) every level of the one that has them
    for v in variants: J += core_jobs(ctx, v, 'host' if v == 'portable' else None)
    ms = lib.marches()
    tuned = (['native', 'native-noavx256'] + ['march-' + m for m in ('x86-64', 'atom', 'haswell', 'znver1') if m in ms] if ctx.quick else
             ['native', 'native-noavx256', 'clang'] + ['march-' + m for m in ms] + ['march-' + m + '-noavx256' for m in ('haswell', 'icelake', 'znver1') if m in ms])
    lib.build_many(variants + tuned)
    for v in tuned: J += core_jobs(ctx, v, 'host')
    run_jobs(ctx, J, MC_DISPATCH(ctx))

MC_WORKERS = lambda ctx: [('MCWorkers', 'MCWorkers.cfg' if ctx.quick else 'MCWorkers_deep.cfg', dict(timeout=800))] + [('MCWorkers', 'MCWorkers_%s.cfg' % v, dict(timeout=200, refute=True)) for v in ('flagfirst', 'always', 'shared')]
MC_RESULTS = lambda ctx: [('MCResults', 'MCResults.cfg' if ctx.quick else 'MCResults_deep.cfg', dict(timeout=800))] + [('MCResults', 'MCResults_%s.cfg' % v, dict(timeout=200, refute=True)) for v in ('reused', 'remembered', 'grown')]
def C18(ctx):
    gd = lib.build_helper(); a = dict(judge='TraceWorkers'); J = []
    for k in range(ctx.q(2, 6)): J.append(Job('workers.js', 'park', variant='traced', guard=gd, n=ctx.q(3, 30), budget=ctx.q(50, 150), calls=ctx.q(500, 1500), inst=k, **a))
    for k in range(ctx.q(2, 6)): J.append(Job('workers.js', 'churn', n=ctx.q(150, 2500), inst=k, **a))
    b = lib.gen_behaviours('GenWorkers', ctx.q(1, 2))
    for k in range(ctx.q(4, 8)): J.append(Job('workers.js', 'schedules', behaviours=b, of=ctx.q(4, 8), part=k, **a))
    J.append(Job('workers.js', 'contexts', n=ctx.q(60, 1500), **a))
    for l in ctx.q(['host', 'sse2'], codec_levels(ctx)): J.append(Job('workers.js', 'interleaved', n=ctx.q(300000, 3000000), level=l, **a))
    for k in range(ctx.q(1, 4)): J.append(Job('workers.js', 'held', n=ctx.q(6000, 60000), inst=k, sampleBytes=ctx.q(100000, 300000), sampleGrow=1.05, **a))
    run_jobs(ctx, J, MC_WORKERS(ctx) + MC_RESULTS(ctx))

MC_LEDGER = lambda ctx: [('MCLedger', 'MCLedger.cfg' if ctx.quick else 'MCLedger_deep.cfg', dict(timeout=800))] + [('MCLedger', 'MCLedger_%s.cfg' % v, dict(timeout=200, refute=True)) for v in ('zero', 'reject', 'nofail', 'twice', 'thread')]
def C20(ctx):
    gd = lib.build_helper(); a = dict(judge='TraceLedger', guard=gd); J = []
    for l in ctx.q(['host', 'sse2'], ['host'] + codec_levels(ctx)):
        parts = ctx.q(2, 1)
        for k in range(parts): J.append(Job('ledger.js', 'rounds', level=l, of=parts, part=k, mult=ctx.q(1, 3), rounds=ctx.q(6, 8), inst=k, **a))
        J.append(Job('ledger.js', 'oom', level=l, heavy=True, **a))
    J.append(Job('post.js', 'starved', heavy=True, judge='TracePost', guard=gd))
    for k in range(ctx.q(1, 4)): J.append(Job('ledger.js', 'threads', inst=k, **a))
    for k in range(ctx.q(2, 8)): J.append(Job('mem.js', 'retained', judge='TraceMem', n=ctx.q(30000, 200000), inst=k, env=dict(MALLOC_PERTURB_=str(85 + 80 * (k % 2)))))
    run_jobs(ctx, J, MC_LEDGER(ctx))

MC_ARCH = lambda ctx: [('MCArch', 'MCArch.cfg', dict(timeout=200))] + [('MCArch', 'MCArch_%s.cfg' % v, dict(timeout=200, refute=True)) for v in ('processor', 'word', 'bits', 'pmullalone')]
def C21(ctx):
    import cross
    pk, J = {}, []
    def one(a):
        try: return a, lib.build('cross-' + a), None
        except lib.CheckError as e: return a, None, e
    for a, d, e in lib.parallel([lambda a=a: one(a) for a in cross.available()], 3):
        if d: pk[a] = d
        else: lib.log('left out, not built: %s' % e); ctx.notes.append('left out, not built: %s' % str(e)[:300])
    if not pk: lib.log('no emulator, or nothing built: nothing was executed'); ctx.notes.append('nothing was executed')
    systems = lib.gen_behaviours('GenArch', ctx.q(1, 2))
    for a in pk:
        v = 'cross-' + a; first = list(cross.ARCHES[a]['levels'])[0]
        for l in cross.ARCHES[a]['codec']:
            k = dict(variant=v, level=l, judge='TraceCodec', sampleBytes=ctx.q(3000, 12000))
            J += [Job('codec.js', 'encRandom', n=ctx.q(12000, 400000), **k), Job('codec.js', 'encLengths', maxLen=ctx.q(320, 1500), per=ctx.q(4, 20), **k), Job('codec.js', 'encSlide', sizes=ctx.q([12, 33, 64], list(range(12, 140, 5))), **k),
                  Job('codec.js', 'encBytes', sizes=ctx.q([128], [16, 33, 64, 128]), **k), Job('codec.js', 'encLong', n=ctx.q(3, 60), **k), Job('codec.js', 'encMax', n=ctx.q(2500, 60000), **k), Job('codec.js', 'encWindows', n=ctx.q(3, 200), **k),
                  Job('codec.js', 'decRandom', n=ctx.q(12000, 400000), **k), Job('codec.js', 'decLengths', maxLen=ctx.q(600, 2500), per=ctx.q(4, 24), **k), Job('codec.js', 'decSlide', alignStep=ctx.q(21, 3), **k), Job('codec.js', 'decLong', n=ctx.q(4, 80), **k), Job('codec.js', 'decWindows', n=1, of=ctx.q(9, 1), **k), Job('stream.js', 'windows', op='end', n=1, of=ctx.q(9, 1), **k),
                  Job('codec.js', 'roundtrip', n=ctx.q(2000, 80000), maxLen=ctx.q(250, 700), per=ctx.q(1, 10), **k),
                  Job('stream.js', 'random', op='stream', n=ctx.q(1200, 40000), **k), Job('stream.js', 'splits', op='end', n=ctx.q(40, 1500), **k), Job('stream.js', 'slide', op='end', reps=ctx.q(1, 8), **k), Job('stream.js', 'heads', op='end', n=ctx.q(1, 8), **k)]
            for f in ctx.q([61], [0, 15, 29, 61, 125, 253, 509]): J += [Job('codec.js', 'decTails', **{'from': f, 'to': f + ctx.q(1, 4)}, **k), Job('stream.js', 'tails', op='stream', **{'from': f, 'to': f + ctx.q(0, 3)}, **k)]
        for l in cross.ARCHES[a]['crc']:
            k = dict(variant=v, level=l, judge='TraceCrc', sampleBytes=ctx.q(3000, 12000))
            J += [Job('crc.js', 'lengths', to=ctx.q(200, 1500), per=ctx.q(8, 64), **k), Job('crc.js', 'lengths', to=40, per=64, **k), Job('crc.js', 'random', n=ctx.q(6000, 200000), **k), Job('crc.js', 'algebra', n=ctx.q(8000, 300000), **k),
                  Job('crc.js', 'small', maxExp=ctx.q(1200, 30000), **k), Job('crc.js', 'pieces', n=ctx.q(2000, 60000), **k), Job('crc.js', 'join', n=ctx.q(1500, 50000), **k), Job('crc.js', 'basis', sizes=ctx.q([1, 15, 16, 17, 64, 129], [1, 4, 15, 16, 17, 31, 32, 47, 63, 64, 65, 127, 128, 129, 257]), **k), Job('crc.js', 'linear', to=ctx.q(100, 260), step=ctx.q(5, 1), **k)]
        if a in cross.MATTR:
            parts = ctx.q(2, 6) if a == 'riscv64' else 1
            J += [Job('arch.js', 'systems', variant=v, level=first, judge='TraceArch', systems=systems, of=parts, part=k, more=ctx.q(12, 120)) for k in range(parts)]
    run_jobs(ctx, J, MC_ARCH(ctx))

CHECKS = {k: v for k, v in globals().items() if k[0] == 'C' and k[1:].isdigit()}
