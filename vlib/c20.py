"""C20: the ledger.  Ledger.tla (operations of several threads, switching meanwhile) checked with TLC; LedgerGen.tla enumerates the histories which
are played in the real module; what it writes is compared with the specification's answers and validated by LedgerTrace.tla."""
import random
from . import indexing, jobs


def gen(ctx, length, calls, long):
    r = ctx.tlc_ok('LedgerGen', cfg='SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Length=%d Calls={%s} Long=%s\n' % (length, ','.join('"%s"' % c for c in calls), 'TRUE' if long else 'FALSE'), workers=1)
    return ctx.tlc_lines(r, 'HIST')


def run(ctx):
    ctx.prebuild()
    base = dict(Threads='{1,2}', MaxOps=3, MaxSwitch=3, Depth=3)
    good = [base, dict(base, Threads='{1}', MaxOps=4, MaxSwitch=4)]
    if not ctx.quick:
        good += [dict(base, Threads='{1,2,3}', MaxOps=4, MaxSwitch=3), dict(base, MaxOps=5, MaxSwitch=5)]
    indexing.cfgs(ctx, 'Ledger', [(g, '') for g in good] + [(base, b) for b in ('toggle', 'restore', 'shared', 'error', 'leave', 'double')], lambda d: True, 'Setting Once Clean', 'Ends', 'Fair')
    rnd = random.Random(ctx.seed)
    hist = gen(ctx, ctx.pick(4, 5), ['enable', 'disable', 'info', 'ask', 'op', 'bad'], False)
    hist += [h for h in gen(ctx, 4, ['enable', 'disable', 'many', 'op'], False) if any(c == 'many' for c, _ in h)][::ctx.pick(3, 1)]
    win = gen(ctx, 5, ['enable', 'disable', 'op', 'ask', 'begin', 'end'], True)
    win = [h for h in win if h[0][0] != 'end']
    rnd.shuffle(hist)
    rnd.shuffle(win)
    ctx.log('%d histories of one thread, %d of two' % (len(hist), len(win)))
    win = win[:ctx.pick(320, 100000)]
    n = ctx.pick(16, 32)
    jobs.replay(ctx, 'ledger_drv.py', n, dict(cases=ctx.pick(600, 4000)), trace=('LedgerTrace', 'TSpec', 'recorded history of the ledger'), per_job=lambda i: dict(histories=hist[i::n], windows=win[i::n]))
