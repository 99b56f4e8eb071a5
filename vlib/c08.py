import random
from . import pool
from .pool import scenario, LENS, ITEMS


def run(ctx):
    ctx.assumptions += ['sequentially consistent interleavings of the shared accesses (x86-TSO store buffering is not modelled)',
                        'the model is exhaustive for the listed numbers of workers, items and ring slots; the real pool is explored by '
                        'seeded random, priority and TLC-derived schedules for 1..15 workers']
    good = [(dict(NW=2, prog=[[(1, 'c', 3, 2)]]), True), (dict(NW=2, prog=[[(1, 'n', 3, 2)]]), True),
            (dict(NW=2, prog=[[(1, 'w', 3, 2)]], zig=True), True), (dict(NW=2, prog=[[(1, 'w', 4, 1)]], zig=True), True),
            (dict(NW=2, prog=[[(1, 'w', 2, 2), (2, 'w', 3, 1)]], zig=True), False)]
    if not ctx.quick:
        good += [(dict(NW=3, prog=[[(1, 'c', 4, 3)]]), False), (dict(NW=3, prog=[[(1, 'w', 4, 2)]], zig=True), False),
                 (dict(NW=3, prog=[[(1, 'w', 3, 3)]]), False), (dict(NW=3, prog=[[(1, 'n', 3, 3)]]), False),
                 (dict(NW=2, prog=[[(1, 'c', 2, 2), (2, 'w', 3, 2), (3, 'n', 2, 1)]], zig=True), False),
                 (dict(NW=2, prog=[[(1, 'c', 2, 2)], [(2, 'w', 2, 2)]]), False)]
    bad = [(dict(NW=2, prog=[[(1, 'n', 2, 2)]], bug='counterzero'), False), (dict(NW=2, prog=[[(1, 'c', 2, 2)]], bug='lostupdate'), False),
           (dict(NW=1, prog=[[(1, 'c', 2, 1)]], bug='nowait'), False)]
    pool.check_models(ctx, good, bad)
    rnd = random.Random(ctx.seed)
    exe = pool.build_harness(ctx)
    if exe:
        lines = []
        for i, g in enumerate(pool.guides(ctx, dict(NW=2, PS=4, RS=3, prog=[[(1, 'c', 4, 2), (2, 'w', 5, 2), (3, 'n', 3, 2)]], zig=True), ctx.pick(40, 400))):
            lines.append(scenario('g%d' % i, 2, 2, 1, 1, ctx.seed * 1000 + i, 1, 'random', g, [[('c', 65536, 2), ('w', 65537, 2), ('n', 3, 2)]]))
        # every mode, every length, the whole range of workers and wake-ups
        k = 0
        for mode in 'cwns':
            for ln in (LENS if mode in 'cw' else ITEMS):
                for zig in ((0, 1) if mode == 'w' else (0,)):
                    for workers in ([1, 2, 3, 4, 5, 7, 8, 12, 15] if not ctx.quick else rnd.sample([1, 2, 3, 4, 5, 7, 8, 12, 15], 4)):
                        if mode == 's' and ln == 0:
                            continue
                        k += 1
                        lines.append(scenario('p%d' % k, workers, rnd.choice([1, 2, 3, 7, 15]), zig, 1, ctx.seed * 100000 + k * 50,
                                              ctx.pick(20, 200), pool.strat(k), None, [[(mode, ln, rnd.choice([0, 1, 2, 3, 4, 7, 8, 15]))] * 2]))
        pool.explore(ctx, exe, lines, 'pieces handed to the callbacks')
    sched = pool.build_sched(ctx)
    seeds = [ctx.seed * 1000 + i for i in range(ctx.pick(12, 120))]
    cases = []
    for op, dt in (('bin:add', 'f8'), ('bin:multiply', 'i4'), ('bin:less', 'i2'), ('bin:bitwise_xor', 'u1'), ('inp:add', 'i2'),
                   ('inp:subtract', 'f4'), ('un:sqrt', 'f4'), ('un:negative', 'i8'), ('un:isnan', 'f8'), ('un:log', 'f8'), ('un:sin', 'f4'),
                   ('strided:subtract', 'i8'), ('strided:maximum', 'f4'), ('cast:i4', 'f8')):
        ns = rnd.sample(LENS, 2 if ctx.quick else 6)
        for n in ns:
            for sc in ((0, 1, 2) if op.startswith('bin') and not ctx.quick else (rnd.choice((0, 1, 2)) if op.startswith('bin') else 0,)):
                cases.append(dict(op=op, dt=dt, n=n, scalar=sc, workers=rnd.choice([1, 2, 3, 5, 7]), seeds=seeds, approx=op in ('un:log', 'un:sin')))
    for op, dt in (('red:add', 'i8'), ('red:add', 'f8'), ('red:maximum', 'f4'), ('red:minimum', 'i2'), ('red:multiply', 'u4'), ('red:logical_or', '?'),
                   ('mask', 'i4'), ('mask', 'S5'), ('fancy:i4', 'f8'), ('fancy:i8', 'S7'), ('fancy:i2', 'i1'), ('arange', 'i4'), ('arange', 'f8'), ('rec:1', 'f8')):
        for n in rnd.sample(LENS, 2 if ctx.quick else 5):
            cases.append(dict(op=op, dt=dt, n=n, workers=rnd.choice([1, 2, 3, 5, 7]), seeds=seeds, approx=op == 'red:add'))
    for op, dt in (('sort:stable', 'i4'), ('sort:quicksort', 'f8'), ('argsort:stable', 'f4'), ('argsort:quicksort', 'i8'), ('lexsort', 'f4')):
        for n in rnd.sample(LENS, 1 if ctx.quick else 3):
            cases.append(dict(op=op, dt=dt, n=n, workers=rnd.choice([2, 3, 5, 7]), seeds=seeds[:ctx.pick(3, 15)]))
    pool.operations(ctx, sched, cases, 'whole operations')
