"""C15: integer-array indexing.  Gather.tla (blocks, strides, byte copies, ranges) checked with TLC; the rows of GatherTable.tla for every
8-bit index replayed into getitem and the [] hook, with other index widths; recorded runs against IndexTrace.tla; controlled schedules."""
from . import indexing, jobs


def run(ctx):
    ctx.prebuild()
    table = indexing.gather_model(ctx)
    n = ctx.pick(16, 48)
    jobs.replay(ctx, 'index_drv.py', n, dict(what='gather', cases=ctx.pick(120, 900), records=ctx.pick(12, 60)), trace=('IndexTrace', 'TSpec', 'recorded integer indexing'),
                per_job=lambda i: dict(table=table[i::n]))
    indexing.schedules(ctx, [('fancy:i1', 'f8'), ('fancy:u1', 'i2'), ('fancy:i2', 'S7'), ('fancy:u2', 'f4'), ('fancy:i4', 'i1'), ('fancy:u4', 'U3'), ('fancy:i8', 'S5'), ('fancy:u8', 'f8'), ('fancy:i8:strided', 'i4')], 'integer indexing')
