import concurrent.futures as cf, json, os, re
from . import jobs
from .core import CheckError


def model(ctx, good, bugs):
    ops = '"add", "mul", "min", "max", "sub", "shl"'

    def one(j):
        n, lanes, chunk, th, thr, bug = j
        cfg = 'SPECIFICATION Spec\nINVARIANT IsFold\nCHECK_DEADLOCK FALSE\nCONSTANT Ops={%s}\nCONSTANT MaxN=%d\nCONSTANT Lanes=%d\nCONSTANT Chunk=%d\n' \
              'CONSTANT Threshold=%d\nCONSTANT Threads={%s}\nCONSTANT Bug="%s"\n' % (ops, n, lanes, chunk, th, ','.join(map(str, range(1, thr + 1))), bug)
        return ctx.tlc('Reduce', cfg=cfg, workers=2, heap='3g', timeout=800)
    todo = [g + ('',) for g in good] + [(4, 2, 3, 3, 2, b) for b in bugs]
    with cf.ThreadPoolExecutor(4) as ex:
        for j, r in zip(todo, ex.map(one, todo)):
            if j[-1] and not r.violated:
                raise CheckError('Reduce with Bug=%s is not rejected: %s' % (j[-1], r.error_text()[:500]))
            if not j[-1] and not r.ok:
                raise CheckError('Reduce %s: %s' % (j, r.error_text()[:1500]))
    ctx.extra['wrong_variants_rejected'] = len(bugs)
    ctx.log('Reduce: %d configurations are folds, %d wrong variants rejected' % (len(good), len(bugs)))


def run(ctx):
    ctx.assumptions += ['floating point sums and products: exact where every order gives the same (integer valued, or powers of two), otherwise within the rounding of any order',
                        'the sign of a zero sum, minimum or maximum is not compared']
    ctx.prebuild()
    model(ctx, [(5, 2, 3, 4, 2)] + ctx.pick([], [(6, 2, 3, 4, 3), (6, 3, 4, 5, 2)]), ['anysplit', 'zerolane', 'notail', 'dropstart'])
    q = ctx.pick(1, 15)
    n = ctx.pick(16, 48)
    jobs.replay(ctx, 'reduce_drv.py', n, dict(cases=1000 * q * 16 // n, traces=200 * q * 16 // n), trace=('ReduceTrace', 'TSpec', 'recorded reduction'))
