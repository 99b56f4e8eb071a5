import random
from . import config as cf, pool
from .config import C


def run(ctx):
    ctx.assumptions += ['the default number of workers of each accelerated loop is read from a fresh process; '
                        'everything else the calls answer is decided by specs/Config.tla']
    cf.check_model(ctx, ctx.pick([1, 4, 16], [1, 2, 3, 4, 8, 12, 13, 16, 20]))
    inf = cf.info(ctx)
    if not inf:
        return
    rnd = random.Random(ctx.seed)
    hooked = inf['hooked']
    want = {(n, d) for n in ('add', 'subtract', 'multiply', 'less', 'equal') for d in range(13)}
    missing = [w for w in want if w not in {(h[0], h[1]) for h in hooked} and not (w == ('subtract', 0))]
    if missing:
        ctx.violation('loops missing from atop_info: %s' % missing, missing)
    sets = cf.cpu_sets()
    calls = cf.model_calls(hooked[:2])
    jobs = []
    # every ordered pair of calls is adjacent somewhere (Eulerian walk over the complete graph), on every CPU count
    for cpus in sets:
        jobs.append((pairs(calls, rnd), cpus))
    # TLC-generated random walks over many loops
    for k, cpus in enumerate(sets):
        hk = rnd.sample(hooked, 6)
        cl = cf.model_calls(hk) + [C('atop_setworkers', h[0], h[1], n) for h in hk for n in (0, 2, 7, 63)] + \
            [C('atop_info', h[0], h[1]) for h in hk] + \
            [C('atop_setworkers', n=n, ok=False) for n in range(6)] + [C('thread_setworkers', n=n, ok=False) for n in range(7)] + \
            [C('atop_info', n=n, ok=False) for n in range(5)]
        for h in cf.histories(ctx, cl, hk, len(cpus), ctx.pick(150, 400), ctx.pick(4, 25)):
            jobs.append((h, cpus))
    # every loop: read, set, read back; twice with different values, with other calls in between
    h = []
    for rep in (1, 2):
        for x in rnd.sample(hooked, len(hooked)):
            h += [C('atop_info', x[0], x[1]), C('atop_setworkers', x[0], x[1], rnd.choice([0, 1, 2, 5, 63])),
                  C('atop_setworkers', x[0], x[1], rnd.choice([64, -1, 100])), C('atop_info', x[0], x[1])]
    for x in hooked:
        h.append(C('atop_info', x[0], x[1]))
    jobs.append((h, sets[0]))
    cf.replay_all(ctx, jobs, hooked, what='history of configuration calls')
    in_force(ctx, sets)
    ctx.extra['calls_replayed'] = sum(len(j[0]) for j in jobs)
    ctx.extra['cpu_counts'] = [len(s) for s in sets]


def in_force(ctx, sets):
    """Who works on an operation, after any history: seen in the instrumented module, its threads taking turns."""
    sched = pool.build_sched(ctx)
    jobs = []
    uses = [C('use', u) for u in cf.USES]
    switch = [C(f) for f in ('atop_enable', 'atop_disable', 'thread_enable', 'thread_disable', 'hook_enable', 'hook_disable', 'enable', 'disable', 'init', 'initialize')]
    other = [C(f) for f in ('thread_zigzag', 'ledger_disable', 'ledger_info', 'thread_getworkers', 'recycler_enable')] + [C('thread_setworkers', n=n) for n in (1, 2, 5, 15)]
    for k, cpus in enumerate(sets):
        if len(cpus) not in (1, 2, 3):
            h = [c for s in switch for t in switch for c in [s, t] + uses]
            jobs += [(h[i:i + 260], cpus) for i in range(0, len(h), 260)]
        for h in cf.histories(ctx, switch + switch + other + uses + uses, [('add', 5, 3)], len(cpus), ctx.pick(120, 300), ctx.pick(2, 12)):
            jobs.append((h, cpus))
    cf.replay_all(ctx, jobs, [('add', 5, 3)], what='history of switches and operations', pypath=sched)
    ctx.extra['histories_with_operations_watched'] = len(jobs)


def pairs(calls, rnd):
    n = len(calls)
    adj = {i: list(range(n)) for i in range(n)}
    for l in adj.values():
        rnd.shuffle(l)
    stack, path = [0], []
    while stack:                      # Hierholzer
        v = stack[-1]
        if adj[v]:
            stack.append(adj[v].pop())
        else:
            path.append(stack.pop())
    return [calls[i] for i in reversed(path)]
