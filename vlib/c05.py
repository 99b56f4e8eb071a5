import concurrent.futures as cf, json, os, random
from . import ufunc, jobs
from .core import CheckError

FNS = 'sin cos tan arcsin arccos arctan sinh cosh tanh arcsinh arccosh arctanh exp exp2 expm1 log log2 log10 log1p cbrt'.split()


def tables(ctx):
    out = ctx.path('trans')
    os.makedirs(out, exist_ok=True)
    fns = '{' + ','.join('"%s"' % f for f in FNS) + '}'
    cfg = 'SPECIFICATION Spec\nINVARIANT LawsHold\nCHECK_DEADLOCK FALSE\nCONSTANT Fns=%s\nCONSTANT OutDir="%s"\nCONSTANT Bug="%%s"\n' % (fns, out)
    ctx.tlc_ok('TransSem', cfg=cfg % '', workers=2)
    for b in ('signzero', 'edge', 'flush'):
        if not ctx.tlc('TransSem', cfg=cfg % b, workers=1).violated:
            raise CheckError('TransSem with Bug=%s is not rejected' % b)
    return out


def groups(ctx):
    cfg = 'SPECIFICATION Spec\nINVARIANT EachRight\nCHECK_DEADLOCK FALSE\nCONSTANT W=%d\nCONSTANT MaxN=%d\nCONSTANT Chunk=%d\nCONSTANT Bug="%s"\nCONSTANT OutFile="%s"\n'
    out = ctx.path('masks.json')
    for w, n, c in [(2, 6, 4)] + ctx.pick([], [(3, 8, 5), (2, 8, 3)]):
        ctx.tlc_ok('TransExec', cfg=cfg % (w, n, c, '', out), workers=3, timeout=800)
    for b in ('first', 'any', 'notout', 'mixed', 'tailfast'):
        if not ctx.tlc('TransExec', cfg=cfg % (2, 5, 3, b, ''), workers=1).violated:
            raise CheckError('TransExec with Bug=%s is not rejected' % b)
    ctx.extra['wrong_variants_rejected'] = 8
    return out


def run(ctx):
    ctx.assumptions += ['"a few units in the last place" is 6 from plain NumPy, evaluated before pnumpy is initialised; the specification gives exact results at special points and bounds elsewhere']
    ctx.prebuild()
    with cf.ThreadPoolExecutor(3) as ex:
        a, b, c = ex.submit(tables, ctx), ex.submit(groups, ctx), ex.submit(ufunc.scenarios, ctx)
        spec, masks, scen = a.result(), b.result(), c.result()
    ctx.log('TransSem, TransExec: laws hold, 8 wrong variants rejected')
    keys = [[f, t] for f in FNS for t in ('f4', 'f8')]
    random.Random(ctx.seed).shuffle(keys)
    q = ctx.pick(1, 20)
    n = ctx.pick(20, 40)
    tot = jobs.replay(ctx, 'trans_drv.py', n, dict(spec=spec, masks=masks, scen=scen, sweep=ctx.pick(300000, 6000000), refs=400 * q, apart=(250 * q, 20 * q, 6 * q),
                      shared=(60 * q, 6 * q, 2 * q), nd=40 * q), per_job=lambda i: dict(only=keys[i::n]))
    if tot.get('spec_wrong'):
        raise CheckError('plain NumPy is outside the bounds of TransSem')
