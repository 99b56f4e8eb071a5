from . import sorting


def run(ctx):
    ctx.assumptions += ['ranks decide the order: NaN last, zeros of both signs equal', 'interleavings of the real merge tree are those of the deterministic scheduler and of the operating system']
    sorting.run(ctx, 'lexsort', ctx.pick(12000, 300000), ctx.pick(480, 9600), ctx.pick(320, None),
                [('lexsort', 'f4'), ('lexsort', 'i8'), ('lexsort', 'S4'), ('lexsort', 'U3'), ('lexsort', 'i1'), ('lexsort', '?')])
