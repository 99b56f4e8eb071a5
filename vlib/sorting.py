"""Shared by C11 (sort), C12 (argsort) and C13 (lexsort)."""
import concurrent.futures as cf, random, re
from . import jobs, pool
from .core import CheckError


def model(ctx):
    """ParSort.tla: the parallel tree under every interleaving; the wrong variants must be rejected."""
    inv = 'SortedStable Disjoint ChildrenReady NotAfterReturn'

    def one(j):
        n, lv, keys, th, some, bug = j
        live = 'PROPERTY Returns\n' if not bug and n <= 5 else ''
        cfg = 'SPECIFICATION Spec\nINVARIANT %s\n%sCHECK_DEADLOCK FALSE\nCONSTANT N=%d\nCONSTANT Levels=%d\nCONSTANT Keys=%d\nCONSTANT Threads={%s}\nCONSTANT Some={%s}\nCONSTANT Bug="%s"\n' % (
            inv, live, n, lv, keys, ','.join(map(str, range(1, th + 1))), ','.join(map(str, some)), bug)
        return ctx.tlc('ParSort', cfg=cfg, workers=2, heap='3g', timeout=850)
    few = [10, 52, 0, 61]
    good = [(5, 2, 1, 2, []), (8, 3, 1, 1, []), (8, 2, 6, 2, few), (8, 3, 5, 2, few), (9, 2, 6, 3, few[:2])]
    if not ctx.quick:
        good += [(6, 2, 2, 2, []), (4, 2, 2, 3, []), (8, 3, 2, 1, []), (11, 3, 6, 2, few), (8, 3, 5, 3, few[:2]), (13, 2, 6, 3, few), (17, 3, 6, 2, few)]
    todo = [g + ('',) for g in good] + [(8, 2, 6, 2, few, b) for b in ('race', 'wsunscaled', 'tie', 'skip', 'early')]
    with cf.ThreadPoolExecutor(4) as ex:
        for j, r in zip(todo, ex.map(one, todo)):
            if j[-1] and not r.violated:
                raise CheckError('ParSort with Bug=%s is not rejected: %s' % (j[-1], r.error_text()[:500]))
            if not j[-1] and not r.ok:
                raise CheckError('ParSort %s: %s' % (j, r.error_text()[:1500]))
    ctx.extra['wrong_variants_rejected'] = 5
    ctx.log('ParSort: %d configurations, 5 wrong variants rejected' % len(good))


def patterns(ctx, count):
    """key patterns for the eight pieces, one for each combination of situations at the seven merges (SortScen.tla)"""
    r = ctx.tlc('SortScen', cfg='SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT N=8\nCONSTANT Levels=3\nCONSTANT Keys=2\n', workers=1, heap='1g', timeout=300)
    if not r.ok:
        raise CheckError('SortScen: %s' % r.error_text()[:1000])
    by = {}
    for m in re.finditer(r'<<"scen", <<([\d, ]+)>>, <<([\d, ]+)>>>>', r.out):
        by.setdefault(m.group(1), []).append([int(x) for x in m.group(2).split(',')])
    rnd = random.Random(ctx.seed)
    keys = sorted(by)
    if len(keys) < 1000:
        raise CheckError('SortScen printed %d situations' % len(keys))
    rnd.shuffle(keys)
    if count is not None:
        keys = keys[:count]
    ctx.extra['merge_situations'] = len(keys)
    return [rnd.choice(by[k]) for k in keys]


def run(ctx, what, cases, records, npat, ops):
    ctx.prebuild()
    model(ctx)
    pats = patterns(ctx, npat)
    n = ctx.pick(16, 48)
    jobs.replay(ctx, 'sort_drv.py', n, dict(what=what, cases=cases // n, records=records // n), trace=('SortTrace', 'TSpec', 'recorded ' + what),
                per_job=lambda i: dict(patterns=pats[i::n], big_records=ctx.pick(1 if i % 4 == 0 else 0, 3)))
    rnd = random.Random(ctx.seed)
    sched = pool.build_sched(ctx)
    seeds = [ctx.seed * 3000 + i for i in range(ctx.pick(6, 60))]
    cs = []
    for op, dt in ops:
        for k in range(ctx.pick(1, 4)):
            cs.append(dict(op=op, dt=dt, n=rnd.choice([65536, 65537, 65536 + 9, 70001, 81921]), workers=rnd.choice([1, 2, 3, 5, 7]), seeds=seeds))
    pool.operations(ctx, sched, cs, what)
