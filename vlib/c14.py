"""C14: boolean-mask indexing.  BoolIndex.tla (two passes over chunks under every interleaving) checked with TLC; its masks, scaled up,
and other masks replayed into getitem and the [] hook; recorded runs against IndexTrace.tla; operations under controlled schedules."""
from . import indexing, jobs


def run(ctx):
    ctx.prebuild()
    masks = indexing.mask_model(ctx)
    n = ctx.pick(16, 48)
    jobs.replay(ctx, 'index_drv.py', n, dict(what='mask', cases=ctx.pick(120, 900), records=ctx.pick(12, 60)), trace=('IndexTrace', 'TSpec', 'recorded boolean indexing'),
                per_job=lambda i: dict(masks=masks[i::n]))
    indexing.schedules(ctx, [('mask', 'i1'), ('mask', 'i2'), ('mask', 'f4'), ('mask', 'f8'), ('mask', 'S7'), ('mask:chunks', 'i8'), ('mask:strided', 'i4'), ('mask:hook', 'S3')], 'boolean indexing')
