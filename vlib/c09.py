import random
from . import pool
from .pool import scenario, LENS, ITEMS, rjob


def run(ctx):
    ctx.assumptions += ['sequentially consistent interleavings of the shared accesses (x86-TSO store buffering is not modelled)',
                        'ring reuse is exhaustive in the model with rings of 2 and 3 slots; in the real ring of 1024 slots it is reached with over 1024 jobs']
    good = [(dict(NW=1, prog=[[(1, 'c', 2, 1), (2, 'w', 2, 1), (3, 'n', 2, 1)]]), True),
            (dict(NW=2, prog=[[(1, 'n', 1, 2), (2, 'n', 2, 1), (3, 'c', 1, 2)]]), False),
            (dict(NW=2, prog=[[(1, 'n', 1, 2), (2, 'g', 2, 1), (3, 'c', 1, 2), (4, 'g', 1, 1)]]), True),
            (dict(NW=1, RS=2, prog=[[(1, 'n', 1, 1), (2, 'n', 1, 1)], [(3, 'n', 1, 1)]]), False),
            (dict(NW=1, RS=2, prog=[[(1, 'c', 1, 1), (2, 'c', 1, 1)], [(3, 'w', 1, 1)]]), False)]
    if not ctx.quick:
        good += [(dict(NW=1, prog=[[(1, 'c', 1, 1), (2, 'n', 2, 1)], [(3, 'w', 2, 1)]]), False),
                 (dict(NW=1, RS=3, prog=[[(1, 'n', 1, 1), (2, 'n', 1, 1), (4, 'c', 1, 1)], [(3, 'n', 1, 1), (5, 'w', 1, 1)]]), False),
                 (dict(NW=2, prog=[[(1, 'n', 1, 2)], [(2, 'n', 1, 2)]]), False),
                 (dict(NW=2, prog=[[(1, 'c', 2, 2)], [(3, 'w', 2, 2)]]), False),
                 (dict(NW=2, RS=3, prog=[[(i, 'n', 1, 2) for i in range(1, 6)]]), False)]
    bad = [(dict(NW=1, RS=3, prog=[[(1, 'c', 1, 1), (2, 'n', 1, 1)]], bug='mainindex'), False),
           (dict(NW=1, prog=[[(1, 'c', 1, 1), (2, 'c', 1, 1), (3, 'n', 2, 1)]], bug='nousers'), False),
           (dict(NW=1, prog=[[(1, 'c', 1, 1), (2, 'c', 1, 1), (3, 'n', 2, 1)]], bug='nocheck'), False),
           (dict(NW=1, prog=[[(1, 'c', 1, 1), (2, 'c', 1, 1), (3, 'c', 2, 1)]], bug='publishfirst'), False),
           (dict(NW=1, prog=[[(1, 'g', 2, 1), (2, 'c', 2, 1)]], bug='leak'), False), (dict(NW=1, prog=[[(1, 'c', 2, 1)]], bug='countfirst'), False), (dict(NW=1, prog=[[(1, 'c', 2, 1)]], bug='nowait'), False)]
    pool.check_models(ctx, good, bad)
    rnd = random.Random(ctx.seed)
    exe = pool.build_harness(ctx)
    if exe:
        lines = []
        gs = pool.guides(ctx, dict(NW=2, PS=4, RS=3, prog=[[(1, 'c', 4, 2), (2, 'n', 2, 1), (3, 'w', 4, 2), (4, 'n', 3, 2)]]), ctx.pick(40, 300), 500)
        for i, g in enumerate(gs):
            lines.append(scenario('g%d' % i, 2, 2, 0, 1, ctx.seed * 1000 + i, 1, 'random', g, [[('c', 65536, 2), ('n', 2, 1), ('w', 65536, 2), ('n', 3, 2)]]))
        gs = pool.guides(ctx, dict(NW=2, PS=4, RS=3, prog=[[(1, 'n', 2, 2), (2, 'c', 4, 2)], [(3, 'w', 4, 2), (4, 'n', 1, 2)]]), ctx.pick(40, 300), 500)
        for i, g in enumerate(gs):
            lines.append(scenario('h%d' % i, 2, 2, 0, 1, ctx.seed * 1000 + i, 1, 'random', g,
                                  [[('n', 2, 2), ('c', 65536, 2)], [('w', 65536, 2), ('n', 1, 2)]]))
        # sequences of jobs of all kinds, one and two callers
        for k in range(ctx.pick(150, 800)):
            nc = 1 + (k % 3 == 2)
            lines.append(scenario('s%d' % k, rnd.choice([1, 2, 3, 4, 6, 8, 12]), rnd.choice([1, 2, 3, 7, 15]), rnd.randint(0, 1), 1,
                                  ctx.seed * 100000 + k * 100, ctx.pick(15, 100), pool.strat(k), None,
                                  [[rjob(rnd) for _ in range(rnd.randint(2, 4))] for _ in range(nc)]))
        # a worker (or a caller) stopped at each of its first steps while the ring wraps around
        n = 1030
        for p in range(1, ctx.pick(14, 40)):
            for who in ('worker', 'caller'):
                if who == 'worker':
                    # the caller (2) publishes, worker 1 moves p steps, then the caller alone
                    pre = '2' * (18 + 3 * (p % 7)) + '1' * p
                    lines.append(scenario('wrap%s%d' % (who, p), 1, 1, 0, 1, ctx.seed + p, 1, 'random', pre + '2' * 45000,
                                          [[('n', 1, 1)] * n + [('n', 3, 1), ('c', 65536, 1)]]))
                else:
                    pre = '2' * (8 + 3 * p)
                    lines.append(scenario('wrap%s%d' % (who, p), 1, 1, 0, 1, ctx.seed + p, 1, 'random', pre + '3' * 45000,
                                          [[('n', 6, 1), ('n', 2, 1)], [('n', 1, 1)] * n + [('n', 3, 1), ('c', 65536, 1)]]))
        rnd.shuffle(lines)
        pool.explore(ctx, exe, lines, 'sequences of jobs')
    sched = pool.build_sched(ctx)
    seeds = [ctx.seed * 2000 + i for i in range(ctx.pick(12, 120))]
    cases = []
    for op, dt in (('bin:add', 'f8'), ('bin:multiply', 'f4'), ('bin:equal', 'i4'), ('inp:multiply', 'i8'), ('un:negative', 'f4'), ('un:tanh', 'f8'),
                   ('strided:add', 'f8'), ('red:add', 'i4'), ('red:minimum', 'f8'), ('red:multiply', 'f8'), ('mask', 'f8'), ('fancy:u4', 'i8'), ('fancy:i8', 'f4'), ('rec:1', 'f8'),
                   ('arange', 'i8')):
        for n in rnd.sample(LENS[1:], 2 if ctx.quick else 5):
            cases.append(dict(op=op, dt=dt, n=n, workers=rnd.choice([1, 2, 3, 5, 7]), seeds=seeds, approx=op in ('un:tanh', 'red:add', 'red:multiply')))
    for op, dt in (('sort:stable', 'f4'), ('sort:heapsort', 'i8'), ('argsort:stable', 'i4'), ('lexsort', 'i8'), ('lexsort', 'S4')):
        cases.append(dict(op=op, dt=dt, n=rnd.choice(LENS[1:6]), workers=rnd.choice([2, 3, 7]), seeds=seeds[:ctx.pick(3, 15)]))
    pool.operations(ctx, sched, cases, 'operands after the return')
    # real threads: two Python threads, long and short operations
    real(ctx)


def real(ctx):
    jobs = [dict(script='threads_drv.py', arg={'mode': m, 'seconds': ctx.pick(6, 30), 'seed': ctx.seed + i}, timeout=ctx.pick(90, 200))
            for i, m in enumerate(['wrap', 'mix', 'small'])]
    ctx.build()
    for j in jobs:
        r = ctx.driver(**j)
        if r['rc'] != 0 or not r['result'] or r['result']['bad']:
            r2 = ctx.driver(**j)
            if r2['rc'] != 0 or not r2['result'] or r2['result']['bad']:
                ctx.violation('two Python threads (%s): %s' % (j['arg']['mode'], r2['result']['bad'][:2] if r2['result'] else 'the process %s' % (
                    'never ends' if r2['rc'] == 'timeout' else 'dies (%s)' % r2['rc'])), {'job': j['arg'], 'out': r2['out'][-1500:]})
                continue
            r = r2
        ctx.extra['calls_from_two_python_threads'] = ctx.extra.get('calls_from_two_python_threads', 0) + r['result']['calls']
    ctx.log('two Python threads:', ctx.extra.get('calls_from_two_python_threads'))
