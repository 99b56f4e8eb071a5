"""C18 and C19: histories of the configuration API against specs/Config.tla."""
import itertools, json, os, random
from .core import tla, NCPU, CheckError

GETSET = ['atop_enable', 'atop_disable', 'atop_isenabled', 'thread_enable', 'thread_disable', 'thread_isenabled',
          'enable', 'disable', 'thread_getworkers', 'thread_zigzag', 'ledger_enable', 'ledger_disable',
          'ledger_isenabled', 'ledger_info', 'recycler_enable', 'recycler_disable', 'recycler_isenabled',
          'recycler_info', 'hook_enable', 'hook_disable', 'initialize', 'init', 'atop_keys']


def C(f, u='', d=0, n=0, ok=True):
    return {'f': f, 'u': u, 'd': d, 'n': n, 'ok': ok}


def callset(calls):
    return '{' + ', '.join(tla(c) for c in calls) + '}'


def wrapper(name, base, calls, hooked, cpus):
    """A module that fixes the constants of Config (records cannot be written in a .cfg file)."""
    return """---- MODULE %s ----
EXTENDS %s
CallsV == %s
HookedV == {%s}
DefaultV == %s
====
""" % (name, base, callset(calls), ', '.join('<<%s, %d>>' % (tla(h[0]), h[1]) for h in hooked),
       ' @@ '.join('(<<%s, %d>> :> %d)' % (tla(h[0]), h[1], h[2]) for h in hooked)), \
        'CONSTANT CPUS = %d\nCONSTANT Calls <- CallsV\nCONSTANT Hooked <- HookedV\nCONSTANT DefaultMax <- DefaultV\n' % cpus


LAWS = ['Legal', 'Getters', 'Idempotent', 'Inverse', 'SetGet', 'PerLoop', 'Rejected', 'Frame', 'InForce']
USES = ['add', 'less', 'floor', 'negative', 'sort', 'argsort', 'getmask', 'getfancy', 'colmajor', 'mask', 'lexsort']


def model_calls(h):
    return [C(f) for f in GETSET] + [C('thread_setworkers', n=n) for n in (-3, 0, 1, 2, 3, 5, 7, 8, 15, 100)] + \
        [C('atop_setworkers', h[0][0], h[0][1], n) for n in (0, 1, 63, 64, -1)] + \
        [C('atop_setworkers', h[1][0], h[1][1], n) for n in (3, 5)] + \
        [C('atop_setworkers', 'nope', 3, 1), C('atop_setworkers', h[0][0], 77, 1),
         C('atop_info', h[0][0], h[0][1]), C('atop_info', h[1][0], h[1][1]), C('atop_info', 'nope', 1),
         C('atop_setworkers', n=1, ok=False), C('thread_setworkers', n=2, ok=False), C('atop_info', n=0, ok=False)]


def check_model(ctx, cpus_list):
    h = [('add', 5, 3), ('sin', 12, 7)]
    calls = [c for c in model_calls(h)]
    # the two recorders have no interplay with the rest: explored with the full product anyway
    for cpus in cpus_list:
        text, cfg = wrapper('ConfigMC', 'Config', calls, h, cpus)
        cfg = 'SPECIFICATION SpecMC\nVIEW stView\n' + cfg + ''.join('INVARIANT %s\n' % l for l in LAWS) + 'CHECK_DEADLOCK FALSE\n'
        text = text.replace('====\n', 'stView == st\nSpecMC == Spec\n====\n')
        r = ctx.tlc('ConfigMC', cfg=cfg, files={'ConfigMC.tla': text}, workers=4)
        if not r.ok:
            raise CheckError('the configuration model breaks its own laws:\n' + r.error_text())
        ctx.log('Config model, %d CPUs: %d states, all laws hold' % (cpus, r.distinct))


def histories(ctx, calls, hooked, cpus, length, num):
    """Histories generated by TLC from Config: every call once after every call (pairs), and random walks."""
    text, cfg = wrapper('ConfigGenMC', 'ConfigGen', calls, hooked, cpus)
    cfg = 'SPECIFICATION GSpec\nCONSTANT HistLen = %d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % length + cfg
    r = ctx.tlc_ok('ConfigGenMC', cfg=cfg, files={'ConfigGenMC.tla': text}, workers=1,
                   simulate='num=%d' % num, extra=['-depth', str(length + 3)])
    return ctx.tlc_lines(r, 'HIST')


def validate(ctx, traces, hooked, cpus):
    """TLC validates recorded histories; returns None or (trace index, event index, text)."""
    f = ctx.path('traces.ndjson')
    with open(f, 'w') as o:
        for t in traces:
            o.write(json.dumps({'ev': t}) + '\n')
    used = sorted({(e['u'], e['d']) for t in traces for e in t if e['f'].startswith('atop_')})
    canon = {9: 7, 10: 8}
    used = {(u, canon.get(d, d)) for u, d in used}
    hk = [h for h in hooked if (h[0], h[1]) in used] or hooked[:1]
    text, cfg = wrapper('ConfigTraceMC', 'ConfigTrace', [], hk, cpus)
    cfg = 'SPECIFICATION TSpec\nCONSTANT TraceFile = "%s"\nINVARIANT Matches\nCHECK_DEADLOCK FALSE\n' % f + cfg
    r = ctx.tlc('ConfigTraceMC', cfg=cfg, files={'ConfigTraceMC.tla': text}, workers=1)
    ctx.log('TLC validated', len(traces), 'histories,', sum(map(len, traces)), 'answers, in %.1fs' % r.wall)
    if r.ok:
        return None
    import re
    tr = re.findall(r'/\\ tr = (\d+)', r.out)
    ii = re.findall(r'/\\ i = (\d+)', r.out)
    la = re.findall(r'/\\ verdict = "(.*)"', r.out)
    if not tr or 'Invariant Matches is violated' not in r.out:
        raise CheckError('trace validation failed: ' + r.error_text())
    return int(tr[-1]) - 1, int(ii[-1]) - 2, la[-1]


def record(ctx, hist, cpus, ref=None, pypath=None):
    """pypath: the instrumented module, whose operations tell who works on them"""
    r = ctx.driver('config_drv.py', {'hist': hist, 'ref': ref, 'use': pypath}, cpus=cpus, timeout=240, pypath=pypath)
    if r['rc'] != 0 or not r['result']:
        return None, r
    return [dict(c, r=x) for c, x in zip(hist, r['result']['res'])], r


def replay_all(ctx, jobs, hooked, ref=None, what='history', pypath=None):
    """jobs: (history, cpu list).  Records each on the real module, validates by TLC, confirms any rejection."""
    from concurrent.futures import ThreadPoolExecutor
    if not pypath:
        ctx.build()
    with ThreadPoolExecutor(max(2, NCPU // (4 if ref else 1))) as ex:
        rec = list(ex.map(lambda j: record(ctx, j[0], j[1], ref, pypath), jobs))
    by = {}
    for (h, cpus), (t, r) in zip(jobs, rec):
        if t is None:
            t2, r2 = record(ctx, h, cpus, ref, pypath)     # confirm: the process died or hung twice
            if t2 is None:
                ctx.violation('the process %s while replaying a %s at call %s' % (
                    'hung' if r2['rc'] == 'timeout' else 'died (%s)' % r2['rc'], what, r2['progress']),
                    {'history': h, 'cpus': cpus, 'out': r2['out'][-2000:]})
                continue
            t = t2
        by.setdefault(len(cpus), []).append((h, cpus, t))
    for n, l in sorted(by.items()):
        while l:
            bad = validate(ctx, [t for _, _, t in l], hooked, n)
            if bad is None:
                ctx.traces += len(l)
                break
            ti, ei, why = bad
            h, cpus, t = l.pop(ti)
            h2 = h[:ei + 1]
            t2, r2 = record(ctx, h2, cpus, ref, pypath)
            if t2 is None or validate(ctx, [t2], hooked, n) is not None:
                ctx.violation('%s: call %d %s answered %r, %s' % (
                    what, ei + 1, {k: t[ei][k] for k in 'fudn'}, t[ei]['r'], why),
                    {'history': h2, 'recorded': t[:ei + 1], 'cpus': cpus})
            if len(ctx.violations) >= 3:
                return
    for h, cpus, t in [x for l in by.values() for x in l][:3]:
        ctx.sample({'cpus': len(cpus), 'history': [(e['f'], e['u'], e['d'], e['n'], e['r']) for e in t[:12]]})


def cpu_sets():
    av = sorted(os.sched_getaffinity(0))
    return [av[:k] for k in (len(av), 1, 2, 3, 5) if k <= len(av)]


def info(ctx):
    r = ctx.driver('config_drv.py', {'names': 1})
    if r['rc'] != 0 or not r['result']:
        ctx.violation('importing pnumpy and listing its accelerated loops fails (%s)' % r['rc'], r)
        return None
    return r['result']
