"""C17: fills.  Arange.tla (blocks over threads which read the first two items from the array being written, rounded or wrapping arithmetic)
under every interleaving; fills of the real module against the formula, numpy's own fill and FillTrace.tla; controlled schedules."""
import random
from . import indexing, jobs, pool


def run(ctx):
    ctx.prebuild()

    def c(n, block, p, mod, span, uns, th):
        return dict(N=n, Block=block, P=p, Mod=mod, Span=span, Unsigned='TRUE' if uns else 'FALSE', Threads='{%s}' % ','.join(map(str, range(1, th + 1))))
    good = [c(7, 3, 2, 0, 9, False, 2), c(8, 1, 2, 0, 4, False, 1), c(6, 4, 0, 8, 4, False, 2), c(5, 2, 0, 8, 4, True, 2), c(3, 1, 2, 0, 5, False, 3)]
    if not ctx.quick:
        good += [c(9, 3, 3, 0, 20, False, 2), c(9, 2, 2, 0, 9, False, 3), c(10, 4, 0, 16, 8, True, 2), c(8, 3, 0, 16, 8, False, 3)]
    indexing.cfgs(ctx, 'Arange', [(g, '') for g in good] + [(c(7, 3, 2, 0, 9, False, 2), b) for b in ('rewrite', 'restart', 'last', 'add')], lambda d: d['N'] <= 5, 'Right')
    n = ctx.pick(16, 48)
    jobs.replay(ctx, 'fill_drv.py', n, dict(cases=ctx.pick(250, 2000)), trace=('FillTrace', 'TSpec', 'recorded fill'))
    rnd = random.Random(ctx.seed)
    sched = pool.build_sched(ctx)
    cs = []
    for op, dt in [('arange:3:1', 'i4'), ('arange:3:1', 'u1'), ('arange:-7:3', 'i2'), ('arange:0:5', 'u8'), ('arange:-0.906514283759787:3.734175134263878', 'f4'), ('arange:0.1:0.7', 'f8'), ('arange:-1:9007199254740994', 'f8'),
                   ('arange:5:-0.37', 'f4'), ('arange:2:1', 'i1'), ('arange:0.1:0.3', 'g')]:
        cs.append(dict(op=op, dt=dt, n=rnd.choice([65536, 65537, 65545, 70001, 81921, 16384 * 7 - 1]), workers=rnd.choice([1, 2, 3, 5, 7]), seeds=[ctx.seed * 7000 + i for i in range(ctx.pick(10, 100))]))
    pool.operations(ctx, sched, cs, 'arange')
