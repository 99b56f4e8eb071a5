"""C21: positions.  Extreme.tla (lanes, ties, NaN), Search.tla (successive bisections through a sorter) and Wrapped.tla (what a function asks
of its argument) under TLC; the shapes of Wrapped.tla and random calls replayed into NumPy's and pnumpy's functions; PositionTrace.tla."""
import concurrent.futures as cf, re
from . import jobs
from .core import CheckError


def run(ctx):
    ctx.prebuild()

    def e(n, keys, lanes, least):
        return 'Extreme', 'Right', dict(N=n, Keys=keys, Lanes=lanes, Least='TRUE' if least else 'FALSE')

    def s(n, m, keys, right):
        return 'Search', 'AllRight', dict(N=n, M=m, Keys=keys, Right='TRUE' if right else 'FALSE')
    w = ('Wrapped', 'AsNumPy', dict(Show='TRUE'))
    good = [e(5, 3, 2, True), e(5, 3, 2, False), e(7, 2, 3, True), e(1, 2, 4, False), e(4, 2, 1, True), s(4, 2, 3, False), s(4, 2, 3, True), s(0, 2, 2, True), s(3, 3, 2, False), w]
    if not ctx.quick:
        good += [e(8, 3, 3, True), e(8, 3, 4, False), e(9, 2, 2, True), s(5, 2, 3, True), s(5, 2, 3, False), s(4, 3, 3, True), s(6, 1, 2, False)]
    bad = [(e(5, 2, 2, True), b) for b in ('nan', 'tie', 'lanes', 'tail')] + [(s(3, 2, 2, True), b) for b in ('side', 'nosorter', 'lower', 'upper')] + [(w, b) for b in ('raise', 'catchall', 'scalar')]
    todo = [(g, '') for g in good] + bad

    def one(j):
        (spec, inv, c), bug = j
        return ctx.tlc(spec, cfg='SPECIFICATION Spec\nINVARIANT %s\n%sCHECK_DEADLOCK FALSE\n' % (inv, '' if bug else 'PROPERTY Returns\n')
                       + ''.join('CONSTANT %s=%s\n' % kv for kv in c.items()) + 'CONSTANT Bug="%s"\n' % bug, workers=2, heap='2g', timeout=850)
    shapes = []
    with cf.ThreadPoolExecutor(4) as ex:
        for j, r in zip(todo, ex.map(one, todo)):
            if j[1] and not r.violated:
                raise CheckError('%s with Bug=%s is not rejected: %s' % (j[0][0], j[1], r.error_text()[:500]))
            if not j[1] and not r.ok:
                raise CheckError('%s: %s' % (j, r.error_text()[:1500]))
            if j[0][0] == 'Wrapped' and not j[1]:
                shapes = sorted({(m.group(1), m.group(2) == 'TRUE', m.group(3) == 'TRUE', m.group(4))
                                 for m in re.finditer(r'<<"shape", "([^"]*)", (TRUE|FALSE), (TRUE|FALSE), "([^"]*)">>', r.out)})
    if len(shapes) != 16:
        raise CheckError('Wrapped printed %d shapes' % len(shapes))
    ctx.extra['wrong_variants_rejected'] = len(bad)
    ctx.extra['argument_shapes'] = len(shapes)
    ctx.log('Extreme, Search, Wrapped: %d configurations, %d wrong variants rejected' % (len(good), len(bad)))
    n = ctx.pick(16, 48)
    jobs.replay(ctx, 'position_drv.py', n, dict(cases=ctx.pick(1500, 8000), records=ctx.pick(120, 600), shapes=shapes), trace=('PositionTrace', 'TSpec', 'recorded position'))
