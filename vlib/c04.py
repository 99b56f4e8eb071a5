from . import ufunc

INT = ['absolute', 'negative', 'positive', 'sign', 'square', 'isnan', 'isinf', 'isfinite']
FLT = ['absolute', 'fabs', 'negative', 'positive', 'sign', 'signbit', 'square', 'sqrt', 'reciprocal', 'floor', 'ceil', 'trunc', 'rint',
       'isnan', 'isinf', 'isfinite']
BOO = ['absolute', 'isnan', 'isinf', 'isfinite']


def run(ctx):
    ctx.assumptions += ['wide integers and floats: an alphabet of extreme and random values; every value for 8 bit integers',
                        'types the tables do not define (longdouble, half) and random values are compared with plain NumPy, run before pnumpy is initialised']
    ctx.prebuild()
    ufunc.check_exec(ctx, [dict(size=6, n=4)], ['overrun', 'tail', 'outstride'])
    t = ufunc.Tables(ctx, [], INT, [], FLT, BOO)
    q = ctx.pick(1, 12)
    ufunc.replay(ctx, t, FLT, jobs=ctx.pick(16, 48), apart=(600 * q, 30 * q, 10 * q), shared=(20 * q, 0, 0), nd=80 * q, every=True, refs=12000 * q, lanes=150 * q)
