from . import ufunc

OPS = ['add', 'subtract', 'multiply', 'minimum', 'maximum', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'less', 'equal']
FLT = ['add', 'subtract', 'multiply', 'true_divide', 'minimum', 'maximum', 'greater']
UN = ['absolute', 'negative', 'invert', 'logical_not', 'isnan']
UNF = ['absolute', 'negative', 'sqrt', 'floor', 'rint', 'isfinite', 'signbit']


def run(ctx):
    ctx.assumptions += ['accumulates and overlapping calls on types the tables do not define are compared with plain NumPy, run before pnumpy is initialised']
    ctx.prebuild()
    ufunc.check_exec(ctx, [dict(size=6, n=4), dict(size=5, n=3, binary=True, th=2)] +
                     ctx.pick([], [dict(size=7, n=5, live=True), dict(size=6, n=3, binary=True, th=2), dict(size=7, n=5, vw=3, chunk=4, th=4)]),
                     ['nocopy', 'feeds', 'overrun', 'tail', 'outstride'])
    t = ufunc.Tables(ctx, OPS, UN, FLT, UNF, ['logical_and', 'bitwise_or', 'equal', 'logical_not'], int_types=ctx.pick(('i1', 'u1', 'i4', 'u8', 'i2'), tuple(ufunc.inttab.TYPES)), aliases=False)
    q = ctx.pick(1, 12)
    ufunc.replay(ctx, t, OPS, jobs=ctx.pick(16, 48), apart=(40 * q, 5 * q, 2 * q), shared=(300 * q, 20 * q, 8 * q), nd=20 * q, acc=60 * q, traces=3000 * q, overlap=6000 * q)
