from . import ufunc

INT = ['add', 'subtract', 'multiply', 'floor_divide', 'remainder', 'minimum', 'maximum', 'power']
FLT = ['add', 'subtract', 'multiply', 'true_divide', 'floor_divide', 'remainder', 'power', 'minimum', 'maximum']
BOO = ['add', 'multiply', 'minimum', 'maximum']


def run(ctx):
    ctx.assumptions += ['wide integers and floats: all pairs of an alphabet of extreme and random values; every pair for 8 bit integers',
                        'types the tables do not define (longdouble, half, mixed types) are compared with plain NumPy, run before pnumpy is initialised']
    ctx.prebuild()
    ufunc.check_exec(ctx, [dict(size=5, n=4), dict(size=4, n=3, binary=True, th=2)], ['overrun', 'tail', 'outstride'])
    t = ufunc.Tables(ctx, INT, [], FLT, [], BOO)
    q = ctx.pick(1, 12)
    ufunc.replay(ctx, t, FLT, jobs=ctx.pick(16, 48), apart=(400 * q, 20 * q, 6 * q), nd=60 * q, every=True, refs=8000 * q, lanes=120 * q, shared=(60 * q, 2 * q, 0))
