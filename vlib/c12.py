from . import sorting


def run(ctx):
    ctx.assumptions += ['ranks decide the order: NaN last, zeros of both signs equal', 'interleavings of the real merge tree are those of the deterministic scheduler and of the operating system']
    sorting.run(ctx, 'argsort', ctx.pick(12000, 300000), ctx.pick(480, 9600), ctx.pick(None, None),
                [('argsort:stable', 'i4'), ('argsort:stable', 'f4'), ('argsort:quicksort', 'f8'), ('argsort:heapsort', 'u2'), ('argsort:stable', 'S4'), ('argsort:mergesort', 'i8')])
