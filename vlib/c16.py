"""C16: records to columns.  RecArray.tla (chunks over threads, cache blocks, groups of rows, words) under every interleaving; its layouts and
random ones replayed into recarray_to_colmajor; recorded conversions against RecTrace.tla; conversions under controlled schedules."""
import random, re
from . import indexing, jobs, pool
from .core import CheckError


def run(ctx):
    ctx.prebuild()

    def c(rows, chunk, l1, w, th, show=False):
        return dict(Rows=rows, Chunk=chunk, L1=l1, W=w, Threads='{%s}' % ','.join(map(str, range(1, th + 1))), Show='TRUE' if show else 'FALSE')
    good = [c(7, 4, 24, 2, 2), c(5, 2, 9, 3, 1), c(6, 6, 40, 2, 1, True), c(0, 2, 24, 2, 2), c(4, 1, 24, 2, 3)]
    if not ctx.quick:
        good += [c(9, 4, 24, 2, 2), c(11, 5, 60, 3, 2), c(8, 3, 14, 4, 3), c(12, 12, 100, 2, 1)]
    outs = indexing.cfgs(ctx, 'RecArray', [(g, '') for g in good] + [(c(7, 4, 9, 2, 2), b) for b in ('local', 'offset', 'word', 'group', 'last')] + [(c(5, 2, 9, 2, 1), 'nocache')],
                         lambda d: d['Rows'] <= 7, 'Right OnlyOutput Once')
    layouts = {}
    for m in re.finditer(r'<<"layout", (\d+), <<([<>\d, ]+)>>>>', ' '.join(outs)):
        fs = [[int(a), int(b)] for a, b in re.findall(r'<<(\d+), (\d+)>>', m.group(2))]
        layouts[m.group(0)] = [int(m.group(1)), fs]
    if len(layouts) < 20:
        raise CheckError('RecArray printed %d layouts' % len(layouts))
    L = [layouts[k] for k in sorted(layouts)]
    ctx.extra['model_layouts'] = len(L)
    n = ctx.pick(16, 48)
    jobs.replay(ctx, 'rec_drv.py', n, dict(cases=ctx.pick(150, 900), records=ctx.pick(15, 60)), trace=('RecTrace', 'TSpec', 'recorded conversion'),
                per_job=lambda i: dict(layouts=[L[(i + k) % len(L)] for k in range(ctx.pick(6, len(L)))]))
    rnd = random.Random(ctx.seed)
    sched = pool.build_sched(ctx)
    cs = [dict(op='rec:1', dt='f8', n=rnd.choice([16385, 16384 + 1000, 32769, 49157, 70001]), workers=w, seeds=[ctx.seed * 5000 + w * 100 + i for i in range(ctx.pick(8, 80))]) for w in (1, 2, 3, 5, 7, 7)]
    pool.operations(ctx, sched, cs, 'recarray_to_colmajor')
