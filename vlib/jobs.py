"""Runs a driver in several processes under different worker settings; confirms failures by a second run; validates recordings."""
import concurrent.futures as cf, json, os, re
from .core import NCPU, CheckError

WORKERS = [None, 1, 2, 3, 7, 15]


def replay(ctx, script, n, arg, trace=None, timeout=700, per_job=None):
    J = []
    for i in range(n):
        a = dict(arg, seed=ctx.seed * 1000 + i, workers=WORKERS[i % len(WORKERS)], threads=i % 5 != 4, trace_file=ctx.path('trace-%d' % i))
        if per_job:
            a.update(per_job(i))
        J.append(dict(script=script, timeout=timeout, arg=a))
    tot = {}
    for j, r in zip(J, ctx.drivers(J)):
        if r['rc'] != 0 or not r['result']:
            r2 = ctx.driver(**j)
            if r2['rc'] != 0 or not r2['result']:
                ctx.violation('an operation ends the process or hangs (%s): %s' % (r2['rc'], (r2['progress'] or '').strip()[:300]), {'job': j['arg'], 'out': r2['out'][-1500:]})
                continue
            r = r2
        for k, v in r['result']['counts'].items():
            tot[k] = tot.get(k, 0) + v
        if r['result']['fails']:
            r2 = ctx.driver(**j)
            if r2['result'] is None or r2['result']['fails']:
                for f in r['result']['fails'][:4]:
                    ctx.violation(f['what'], dict(f, seed=j['arg']['seed'], workers=j['arg']['workers'], threads=j['arg']['threads']))
            else:
                ctx.log('not confirmed by a second run: %s' % r['result']['fails'][0]['what'][:300])
                ctx.extra.setdefault('unconfirmed', []).append(r['result']['fails'][0]['what'][:300])
    if trace:
        validate(ctx, [j['arg']['trace_file'] for j in J], *trace)
    ctx.extra['replayed'] = {**ctx.extra.get('replayed', {}), **tot}
    ctx.sample(tot)
    ctx.traces += sum(v for k, v in tot.items() if k not in ('traces', 'failed'))
    ctx.log('replayed: %s' % tot)
    return tot


def validate(ctx, files, spec, name, what, cfg='', heap='1g'):
    """the records of each file must satisfy the invariant Valid of the trace specification"""
    files = [f for f in files if os.path.exists(f)]

    def one(f):
        return ctx.tlc(spec, cfg='SPECIFICATION %s\nINVARIANT Valid\nCHECK_DEADLOCK FALSE\nCONSTANT TraceFile="%s"\n%s' % (name, f, cfg), workers=1, heap=heap, timeout=700)
    n = 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f, r in zip(files, ex.map(one, files)):
            lines = open(f).read().splitlines()
            if r.ok:
                n += len(lines)
            elif r.violated:
                k = re.findall(r'^(?:/\\ )?i = (\d+)', r.out, re.M)
                rec = json.loads(lines[int(k[-1]) - 1]) if k and int(k[-1]) <= len(lines) else {}
                ctx.violation('%s is not what the specification allows: %s' % (what, json.dumps(rec)[:300]), rec)
            else:
                raise CheckError('%s: %s' % (spec, r.error_text()[:1500]))
    ctx.traces += n
    ctx.extra['validated_records'] = ctx.extra.get('validated_records', 0) + n
    ctx.log('%s: %d records validated' % (spec, n))
