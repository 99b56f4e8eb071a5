from . import sorting


def run(ctx):
    ctx.assumptions += ['ranks decide the order: NaN last, zeros of both signs equal', 'interleavings of the real merge tree are those of the deterministic scheduler and of the operating system']
    sorting.run(ctx, 'sort', ctx.pick(12000, 300000), ctx.pick(480, 9600), ctx.pick(None, None),
                [('sort:stable', 'i4'), ('sort:quicksort', 'f8'), ('sort:heapsort', 'i8'), ('sort:stable', 'S4'), ('sort:quicksort', 'u1'), ('sort:stable', 'f4')])
