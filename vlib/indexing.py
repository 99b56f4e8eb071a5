"""Shared by C14 (boolean masks) and C15 (integer indexes)."""
import concurrent.futures as cf, random, re
from . import jobs, pool
from .core import CheckError


def cfgs(ctx, spec, todo, live=lambda d: False, inv=None, prop='Returns', formula='Spec'):
    """todo: (dict of constants, wrong variant or '')"""
    inv = inv or {'BoolIndex': 'Right Once Inside NoLateWrite', 'Gather': 'Right NeverOutside OnlyOutput'}[spec]

    def one(j):
        c, bug = j
        cfg = 'SPECIFICATION %s\nINVARIANT %s\n%sCHECK_DEADLOCK FALSE\n' % (formula, inv, 'PROPERTY %s\n' % prop if live(c) and (not bug or bug == 'nocache') else '')
        cfg += ''.join('CONSTANT %s=%s\n' % kv for kv in c.items()) + 'CONSTANT Bug="%s"\n' % bug
        return ctx.tlc(spec, cfg=cfg, workers=2, heap='3g', timeout=850)
    outs = []
    with cf.ThreadPoolExecutor(4) as ex:
        for j, r in zip(todo, ex.map(one, todo)):
            if j[1] and not r.violated:
                raise CheckError('%s with Bug=%s is not rejected: %s' % (spec, j[1], r.error_text()[:500]))
            if not j[1] and not r.ok:
                raise CheckError('%s %s: %s' % (spec, j, r.error_text()[:1500]))
            outs.append(r.out)
    ctx.extra['wrong_variants_rejected'] = sum(1 for j in todo if j[1])
    ctx.log('%s: %d configurations, %d wrong variants rejected' % (spec, sum(1 for j in todo if not j[1]), ctx.extra['wrong_variants_rejected']))
    return outs


def mask_model(ctx):
    def c(n, chunk, word, lanes, cap, th, show=False):
        return dict(N=n, Chunk=chunk, Word=word, Lanes=lanes, Cap=cap, Threads='{%s}' % ','.join(map(str, range(1, th + 1))), Show='TRUE' if show else 'FALSE')
    good = [c(9, 4, 2, 2, 1, 1, True), c(9, 4, 3, 2, 1, 2), c(0, 4, 2, 2, 1, 2), c(1, 2, 2, 2, 1, 2), c(8, 8, 3, 2, 3, 2), c(7, 2, 2, 1, 1, 3)]
    if not ctx.quick:
        good += [c(12, 6, 4, 2, 2, 2), c(11, 3, 2, 3, 1, 3), c(13, 13, 4, 3, 1, 1), c(14, 7, 3, 2, 2, 1), c(10, 2, 2, 2, 3, 3)]
    bad = [(c(9, 4, 3, 2, 1, 2), b) for b in ('cap', 'tail', 'skip', 'onecount', 'early', 'inclusive')]
    outs = cfgs(ctx, 'BoolIndex', [(g, '') for g in good] + bad, lambda d: d['N'] <= 7)
    masks = {}
    for m in re.finditer(r'<<"mask", <<([\d, ]+)>>, <<([\d, ]*)>>>>', outs[0]):
        masks[m.group(1)] = [[int(x) for x in m.group(1).split(',')], [int(x) for x in m.group(2).split(',') if x.strip()]]
    if len(masks) < 511:
        raise CheckError('BoolIndex printed %d masks' % len(masks))
    ctx.extra['model_masks'] = len(masks)
    masks = [masks[k] for k in sorted(masks)]
    random.Random(ctx.seed).shuffle(masks)
    return masks


def gather_model(ctx):
    def c(rows, item, w, gap, ig, back, bits, signed, m, block, th):
        return dict(Rows=rows, Item=item, W=w, Gap=gap, IdxGap=ig, Back='TRUE' if back else 'FALSE', Bits=bits, Signed='TRUE' if signed else 'FALSE', M=m, Block=block,
                    Threads='{%s}' % ','.join(map(str, range(1, th + 1))))
    good = [c(2, 5, 2, 1, 2, True, 3, True, 2, 1, 2), c(3, 4, 2, 0, 1, False, 3, False, 3, 2, 1), c(0, 2, 2, 1, 1, False, 2, True, 3, 1, 2), c(4, 3, 4, 2, 2, True, 2, False, 3, 1, 3),
            c(5, 1, 2, 1, 3, True, 3, True, 2, 2, 1)]
    if not ctx.quick:
        good += [c(2, 5, 2, 1, 2, True, 3, True, 3, 2, 2), c(3, 7, 3, 2, 2, True, 2, True, 4, 2, 2), c(5, 6, 2, 0, 1, False, 3, False, 3, 1, 3), c(2, 9, 4, 1, 2, True, 2, True, 4, 1, 2)]
    b = c(2, 5, 2, 1, 2, True, 3, True, 3, 2, 2)
    bad = [(b, x) for x in ('lowoff', 'highoff', 'packed', 'wordend', 'idxadj', 'outstride')] + [(c(5, 3, 2, 1, 2, False, 3, False, 2, 1, 1), 'sign')]
    cfgs(ctx, 'Gather', [(g, '') for g in good] + bad, lambda d: d['M'] <= 2)
    lens = [0, 1, 2, 5, 100, 127, 128, 129, 200, 255, 256, 300] if ctx.quick else list(range(0, 301, 7)) + [1, 2, 127, 128, 129, 254, 255, 256, 257]
    r = ctx.tlc('GatherTable', cfg='SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Lens={%s}\n' % ','.join(map(str, sorted(set(lens)))), workers=1, heap='1g', timeout=300)
    if not r.ok:
        raise CheckError('GatherTable: %s' % r.error_text()[:1000])
    table = []
    for m in re.finditer(r'<<\s*"pick",\s*(\d+),\s*([01]),\s*<<([-\d,\s]+)>>\s*>>', r.out):
        table.append([int(m.group(1)), int(m.group(2)), [int(x) for x in m.group(3).split(',')]])
    if len(table) != 2 * len(set(lens)) or any(len(t[2]) != 256 for t in table):
        raise CheckError('GatherTable printed %d rows' % len(table))
    ctx.extra['table_rows'] = len(table)
    return table


def schedules(ctx, ops, what):
    rnd = random.Random(ctx.seed)
    sched = pool.build_sched(ctx)
    seeds = [ctx.seed * 3000 + i for i in range(ctx.pick(8, 80))]
    cs = []
    for op, dt in ops:
        for k in range(ctx.pick(1, 4)):
            cs.append(dict(op=op, dt=dt, n=rnd.choice([65536, 65537, 65536 + 9, 70001, 81921, 16384 * 7 - 1]), workers=rnd.choice([1, 2, 3, 5, 7]), seeds=seeds))
    pool.operations(ctx, sched, cs, what)
