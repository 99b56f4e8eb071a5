import os, random
from . import config as cf
from .config import C


def run(ctx):
    ctx.assumptions += ['floating point sums and transcendental functions are compared within a tolerance, the rest bit for bit',
                        'the reference of each computation is a fresh process that performs only that computation']
    cf.check_model(ctx, [4])
    inf = cf.info(ctx)
    if not inf:
        return
    rnd = random.Random(ctx.seed)
    hooked, names = inf['hooked'], inf['names']
    ref = ctx.path('ref')
    os.makedirs(ref, exist_ok=True)
    res = ctx.drivers([dict(script='config_drv.py', arg={'fresh': n, 'file': os.path.join(ref, n + '.npz')}) for n in names])
    for n, r in zip(names, res):
        if r['rc'] != 0:
            ctx.violation('computation %s fails in a fresh process: %s' % (n, r['rc']), r)
            return
    sets = cf.cpu_sets()
    jobs = []
    conf = ['atop_enable', 'atop_disable', 'thread_enable', 'thread_disable', 'enable', 'disable', 'thread_zigzag',
            'ledger_enable', 'ledger_disable', 'recycler_enable', 'recycler_disable', 'hook_enable', 'hook_disable',
            'initialize', 'init']
    for k in range(ctx.pick(12, 80)):
        cpus = sets[k % len(sets)]
        hk = rnd.sample(hooked, 8) + [h for h in hooked if h[0] == 'add' and h[1] in (5, 7, 11, 12)]
        calls = [C(f) for f in conf] + [C('thread_setworkers', n=n) for n in (1, 2, 3, 4, 5, 6, 7, 15)] + \
            [C('atop_setworkers', h[0], h[1], n) for h in hk for n in rnd.sample([0, 1, 2, 4, 7, 63], 2)] + \
            [C('compute', u) for u in names] + [C('compute', u) for u in names]
        for h in cf.histories(ctx, calls, hk, len(cpus), ctx.pick(120, 300), 1):
            jobs.append((h, cpus))
    # systematic: every computation in every combination of the switches
    base = []
    combos = [(a, t, z, h, l) for a in (0, 1) for t in (0, 1) for z in (0, 1) for h in (0, 1) for l in (0, 1)]
    rnd.shuffle(combos)
    zig = 0
    for a, t, z, h, l in combos:
        base += [C('atop_enable' if a else 'atop_disable'), C('thread_enable' if t else 'thread_disable'),
                 C('hook_enable' if h else 'hook_disable'), C('ledger_enable' if l else 'ledger_disable')]
        if z != zig:
            base.append(C('thread_zigzag'))
            zig = z
        base += [C('compute', u) for u in (names if not ctx.quick else rnd.sample(names, 16))]
    jobs.append((base, sets[0]))
    # and with every worker count
    h = []
    for n in (1, 2, 3, 4, 5, 6, 7):
        h += [C('thread_setworkers', n=n)] + [C('compute', u) for u in names]
        if n % 3 == 0:
            h.append(C('thread_zigzag'))
    jobs.append((h, sets[0]))
    cf.replay_all(ctx, jobs, hooked, ref=ref, what='history of configuration calls and computations')
    ctx.extra['calls_replayed'] = sum(len(j[0]) for j in jobs)
    ctx.extra['computations_replayed'] = sum(c['f'] == 'compute' for j in jobs for c in j[0])
