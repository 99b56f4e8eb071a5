from . import ufunc

OPS = ['equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal']


def run(ctx):
    ctx.assumptions += ['wide integers and floats: all pairs of an alphabet of extreme and random values; every pair for 8 bit integers',
                        'types the tables do not define (longdouble, half, mixed types) are compared with plain NumPy, run before pnumpy is initialised']
    ctx.prebuild()
    ufunc.check_exec(ctx, [dict(size=5, n=4), dict(size=4, n=3, binary=True, th=2)], ['overrun', 'tail', 'outstride'])
    t = ufunc.Tables(ctx, OPS, [], OPS, [], OPS)
    q = ctx.pick(1, 12)
    ufunc.replay(ctx, t, OPS, jobs=ctx.pick(16, 48), apart=(600 * q, 30 * q, 8 * q), shared=(20 * q, 0, 0), nd=80 * q, every=True, refs=8000 * q, lanes=120 * q)
