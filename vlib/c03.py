from . import ufunc

BIT2 = ['bitwise_and', 'bitwise_or', 'bitwise_xor', 'left_shift', 'right_shift', 'logical_and', 'logical_or']
BIT1 = ['invert', 'logical_not']
FLT2 = ['logical_and', 'logical_or']
BOO = ['bitwise_and', 'bitwise_or', 'bitwise_xor', 'logical_and', 'logical_or', 'invert', 'logical_not']


def run(ctx):
    ctx.assumptions += ['wide integers and floats: all pairs of an alphabet of extreme and random values; every pair for 8 bit integers',
                        'types the tables do not define (longdouble, half, mixed types) are compared with plain NumPy, run before pnumpy is initialised']
    ctx.prebuild()
    ufunc.check_exec(ctx, [dict(size=5, n=4), dict(size=4, n=3, binary=True, th=2)], ['overrun', 'tail', 'outstride'])
    t = ufunc.Tables(ctx, BIT2, BIT1, FLT2, ['logical_not'], BOO)
    q = ctx.pick(1, 12)
    ufunc.replay(ctx, t, BIT2 + BIT1 + ['logical_xor'], jobs=ctx.pick(16, 48), apart=(500 * q, 25 * q, 8 * q), shared=(20 * q, 0, 0), nd=60 * q, every=True, refs=8000 * q, lanes=120 * q)
