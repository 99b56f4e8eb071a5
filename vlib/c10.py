import os, random
from . import pool
from .pool import scenario, LENS, ITEMS, rjob


def run(ctx):
    ctx.assumptions += ['weak fairness of every thread; a timed wait may time out, a futex wait may return spuriously',
                        'a run on real threads that takes more than its time limit twice is taken for a hang']
    good = [(dict(NW=1, prog=[[(1, 'c', 2, 1), (2, 'w', 2, 1), (3, 'n', 2, 1)]]), True),
            (dict(NW=2, prog=[[(1, 'c', 2, 1), (2, 'c', 1, 2)]]), True), (dict(NW=2, prog=[[(1, 'w', 2, 2)]], zig=True), True),
            (dict(NW=1, prog=[[(1, 'n', 1, 0), (2, 'w', 2, 0), (3, 'c', 1, 0)]]), True),
            (dict(NW=1, RS=2, prog=[[(1, 'n', 1, 1)], [(3, 'n', 1, 1)]]), True)]
    if not ctx.quick:
        good += [(dict(NW=2, prog=[[(1, 'c', 2, 1), (2, 'w', 2, 2)]]), True), (dict(NW=3, prog=[[(1, 'c', 2, 3)]]), True),
                 (dict(NW=1, RS=2, prog=[[(1, 'c', 1, 1)], [(3, 'w', 1, 1)]]), True),
                 (dict(NW=2, prog=[[(1, 'n', 2, 2), (2, 'n', 1, 1), (3, 'n', 1, 2)]]), True)]
    bad = [(dict(NW=1, prog=[[(1, 'c', 2, 1)]], bug='uncounted'), True)]
    pool.check_models(ctx, good, bad)
    rnd = random.Random(ctx.seed)
    exe = pool.build_harness(ctx)
    if exe:
        lines = []
        k = 0
        for workers in range(1, 16):
            for setting in ((0, 1, 2, 3, 4, 7, 8, 11, 12, 14, 15, 31) if not ctx.quick else rnd.sample([0, 1, 2, 3, 4, 7, 8, 11, 12, 14, 15, 31], 6)):
                k += 1
                lines.append(scenario('t%d' % k, workers, setting, rnd.randint(0, 1), 1 if rnd.random() < .9 else 0, ctx.seed * 100000 + k * 100,
                                      ctx.pick(10, 80), pool.strat(k), None,
                                      [[rjob(rnd) for _ in range(rnd.randint(1, 3))] for _ in range(1 + (k % 7 == 0))]))
        pool.explore(ctx, exe, lines, 'termination of the pool')
    sched = pool.build_sched(ctx)
    seeds = [ctx.seed * 3000 + i for i in range(ctx.pick(6, 60))]
    cases = []
    for op, dt in (('bin:add', 'f8'), ('un:sqrt', 'f8'), ('red:add', 'i4'), ('mask', 'f8'), ('fancy:i8', 'i8'), ('rec:1', 'f8'), ('arange', 'i8'), ('strided:add', 'i2')):
        for w in (0, 1, 2, 4, 15):
            cases.append(dict(op=op, dt=dt, n=rnd.choice(LENS), workers=w, seeds=seeds))
    for op, dt in (('sort:stable', 'f4'), ('sort:quicksort', 'i8'), ('argsort:stable', 'i4'), ('lexsort', 'i8')):
        for w in (1, 2, 7):
            cases.append(dict(op=op, dt=dt, n=rnd.choice(LENS[1:6]), workers=w, seeds=seeds[:ctx.pick(2, 12)]))
    pool.operations(ctx, sched, cases, 'termination of whole operations')
    # real threads, CPU sets, settings
    av = sorted(os.sched_getaffinity(0))
    jobs = []
    for i, c in enumerate((1, 2, 3, 4, 5, 6, 7, 8)):
        if c <= len(av):
            jobs.append(dict(script='terminate_drv.py', arg={'seed': ctx.seed + i, 'rounds': ctx.pick(25, 250)}, cpus=av[-c:], timeout=ctx.pick(150, 400)))
    ctx.build()
    for j, r in zip(jobs, ctx.drivers(jobs, parallel=3)):
        if r['rc'] != 0 or not r['result']:
            r2 = ctx.driver(**j)
            if r2['rc'] != 0 or not r2['result']:
                ctx.violation('on %d CPUs: the process %s at %s' % (len(j['cpus']), 'never ends' if r2['rc'] == 'timeout' else 'dies (%s)' % r2['rc'], r2['progress']),
                              {'job': j['arg'], 'cpus': len(j['cpus']), 'out': r2['out'][-1500:]})
                continue
            r = r2
        ctx.extra['calls_on_real_threads'] = ctx.extra.get('calls_on_real_threads', 0) + r['result']['calls']
    ctx.extra['cpu_counts'] = [len(j['cpus']) for j in jobs]
    ctx.log('real threads:', ctx.extra.get('calls_on_real_threads'), 'calls on', ctx.extra['cpu_counts'], 'CPUs')
