"""C08, C09, C10: the worker pool.  WorkerPool.tla is model checked (and refines PoolAbstract.tla); executions of the real
pool under the deterministic scheduler of harness/ are validated by TLC against PoolTrace.tla."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import tla, NCPU, CheckError, VERIF, CXXFLAGS

BIG = 65536
CHUNK = 16384


# ---------------------------------------------------------------------------------------------------- the model
def wrapper(name, base, cfgd):
    prog = cfgd['prog']
    progs = ' @@ '.join('(%d :> <<%s>>)' % (101 + i, ', '.join(
        '[id |-> %d, mode |-> "%s", len |-> %d, wake |-> %d]' % tuple(j) for j in p)) for i, p in enumerate(prog))
    text = '---- MODULE %s ----\nEXTENDS %s\nProgV == %s\n====\n' % (name, base, progs)
    nw, ps = cfgd['NW'], cfgd.get('PS', 2)
    cfg = 'CONSTANT NW=%d\nCONSTANT PoolSize=%d\nCONSTANT NPools=%d\nCONSTANT RingSize=%d\n' % (nw, ps, nw // ps + 1, cfgd.get('RS', 2))
    cfg += 'CONSTANT Callers={%s}\nCONSTANT Program <- ProgV\n' % ','.join(str(101 + i) for i in range(len(prog)))
    cfg += 'CONSTANT ZigZagOn=%s\nCONSTANT Bug="%s"\nCHECK_DEADLOCK FALSE\n' % ('TRUE' if cfgd.get('zig') else 'FALSE', cfgd.get('bug', ''))
    return text, cfg


def check_model(ctx, d, live=True, timeout=800):
    text, cfg = wrapper('WPMC', 'WorkerPool', d)
    cfg = 'SPECIFICATION Spec\n' + cfg + ''.join('INVARIANT %s\n' % i for i in ('NoFaults', 'Covered', 'Owned', 'UsersBack'))
    if live:
        cfg += 'PROPERTY Terminates\nPROPERTY Quiet\nPROPERTY Refines\n'
    return ctx.tlc('WPMC', cfg=cfg, files={'WPMC.tla': text}, timeout=timeout, workers=d.get('workers', 3), heap='5g',
                   count=not d.get('bug'))


def check_models(ctx, good, bad):
    """good: (config, liveness); bad: (config with a Bug, liveness): each wrong variant must be rejected."""
    def one(x):
        d, live = x
        return d, check_model(ctx, d, live)
    with ThreadPoolExecutor(3) as ex:
        for d, r in ex.map(one, good):
            if not r.ok:
                raise CheckError('the model %s breaks its properties:\n%s' % (d, r.error_text()))
            ctx.log('WorkerPool %s: %d states, holds' % (d, r.distinct))
        for d, r in ex.map(one, bad):
            if not r.violated:
                raise CheckError('the model does not reject the wrong variant %s:\n%s' % (d, r.error_text()))
            ctx.extra.setdefault('wrong_variants_rejected', []).append(d['bug'])


def guides(ctx, d, num, length=400):
    """Schedules of the threads taken from TLC behaviours, as coroutine numbers of the harness (hex)."""
    text, cfg = wrapper('PGMC', 'PoolGuide', d)
    cfg = 'SPECIFICATION GSpec\nCONSTANT HistLen=%d\nINVARIANT Emit\n' % length + cfg
    r = ctx.tlc_ok('PGMC', cfg=cfg, files={'PGMC.tla': text}, workers=1, simulate='num=%d' % num, extra=['-depth', str(length + 5)])
    out = []
    for s in ctx.tlc_lines(r, 'SCHED'):
        out.append(''.join('%x' % (t if t <= d['NW'] else d['NW'] + t - 100) for t in s))
    return out


# ---------------------------------------------------------------------------------------------------- the real pool
def build_harness(ctx):
    """None if the sources cannot be driven this way (then only whole operations are checked)."""
    dest = ctx.path('pool')
    src = ctx.copy_tree(dest)
    inc = ctx.includes(src) + ['-I' + os.path.join(VERIF, 'harness')]
    base = [f for f in CXXFLAGS if not f.startswith('-O')] + ['-O1']
    jobs = [([os.path.join(src, 'atop', f)], ['-fsanitize=thread']) for f in ('threads.cpp', 'atop.cpp')] + \
        [([os.path.join(VERIF, 'harness', 'pool_harness.cpp')], ['-fsanitize=thread']),
         ([os.path.join(VERIF, 'harness', 'coop.cpp')], ['-O2'])]

    def one(j):
        o = os.path.join(dest, os.path.basename(j[0][0])[:-4] + '.o')
        r = subprocess.run(['g++'] + base + inc + j[1] + ['-c', j[0][0], '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return o, r
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, jobs))
    for o, r in res:
        if r.returncode:
            ctx.log('the pool harness does not compile:', r.stdout.decode(errors='replace')[-1500:])
            return None
    exe = os.path.join(dest, 'pool')
    r = subprocess.run(['g++'] + [o for o, _ in res] + ['-o', exe, '-pthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        ctx.log('the pool harness does not link:', r.stdout.decode(errors='replace')[-1500:])
        return None
    return exe


def run_harness(ctx, exe, lines, timeout=400):
    """-> (traces, totals, failure or None)"""
    try:
        p = subprocess.run([exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, cwd=ctx.scratch, errors='replace')
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = 'timeout', (e.stdout or b'').decode(errors='replace'), ''
    traces, tot = [], {}
    for l in out.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if 'runs' in d:
            tot = d
        else:
            traces.append(d)
    if rc in (0, 77):
        return traces, tot, None
    return traces, tot, {'rc': rc, 'err': err[-1500:]}


def validate(ctx, traces, spec='PoolTrace', workers=2):
    """TLC checks the traces; returns [] or [(trace, why, event)] for those rejected (at most a few)."""
    bad = []
    traces = list(traces)
    while traces:
        f = ctx.path('pt-%d-%d.ndjson' % (os.getpid(), random.getrandbits(40)))
        with open(f, 'w') as o:
            for t in traces:
                o.write(json.dumps({'jobs': t['jobs'], 'stuck': t['stuck'], 'ev': t['ev']}) + '\n')
        r = ctx.tlc(spec, cfg='SPECIFICATION TSpec\nCONSTANT TraceFile <- TF\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n'.replace(
            '<- TF', '= "%s"' % f), workers=workers, heap='4g')
        os.remove(f)
        if r.ok:
            break
        tr = re.findall(r'/\\ tr = (\d+)', r.out)
        ii = re.findall(r'/\\ i = (\d+)', r.out)
        ve = re.findall(r'/\\ verdict = "(.*)"', r.out)
        if not tr or 'Invariant Accepted is violated' not in r.out:
            raise CheckError('trace validation failed: ' + r.error_text())
        t = traces.pop(int(tr[-1]) - 1)
        bad.append((t, ve[-1], int(ii[-1]) - 1))
        if len(bad) >= 2:
            break
    return bad


def scenario(name, workers, setting, zig, threading, seed, runs, strat, guide, callers):
    return '%s %d %d %d %d %d %d %s %s %s' % (name, workers, setting, zig, threading, seed, runs, strat, guide or '-',
                                             ' ; '.join(' '.join('%s:%d:%d' % j for j in c) for c in callers))


def explore(ctx, exe, lines, what):
    """Run the scenarios in parallel, validate every distinct execution with TLC, confirm rejections by running again."""
    n = max(1, min(len(lines), NCPU * 2))
    parts = [lines[k::n] for k in range(n)]
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda p: run_harness(ctx, exe, p), parts))
    traces = [t for r in res for t in r[0]]
    runs = sum(r[1].get('runs', 0) for r in res)
    steps = sum(r[1].get('steps', 0) for r in res)
    ctx.extra['executions_of_the_real_pool'] = ctx.extra.get('executions_of_the_real_pool', 0) + runs
    ctx.extra['scheduling_points'] = ctx.extra.get('scheduling_points', 0) + steps
    for part, r in zip(parts, res):
        if r[2]:
            again = run_harness(ctx, exe, part)
            if again[2]:
                ctx.violation('the process %s while %s' % ('never ends' if again[2]['rc'] == 'timeout' else 'dies (%s)' % again[2]['rc'], what),
                              {'scenarios': part, 'how': again[2]})
    # one trace for each observation: the names of the threads do not matter
    ctx.log('%s: %d executions, %d distinct traces, %d scheduling points' % (what, runs, len(traces), steps))
    seen, uniq = set(), []
    for t in traces:
        k = json.dumps([t['jobs'], t['stuck'], t['ev']])
        if k not in seen:
            seen.add(k)
            uniq.append(t)
    n = 4
    with ThreadPoolExecutor(n) as ex:
        bads = list(ex.map(lambda k: validate(ctx, uniq[k::n]), range(n)))
    bad = [b for l in bads for b in l]
    ctx.traces += len(uniq) - len(bad)
    for t in uniq[:1] + uniq[len(uniq) // 2:len(uniq) // 2 + 1]:
        ctx.sample({'tag': t['tag'], 'jobs': t['jobs'], 'events': t['ev'][:12]})
    for t, why, ev in bad[:3]:
        name = t['tag'].split(' ')[0]
        seed = int(t['tag'].split(' ')[2])
        line = [l for l in lines if l.split(' ')[0] == name]
        again = []
        if line:
            f = line[0].split(' ')
            f[5], f[6] = str(seed), '1'
            a = run_harness(ctx, exe, [' '.join(f)])
            again = validate(ctx, a[0]) if a[0] else [1] if a[2] else []
        if again or not line:
            ctx.violation('%s: %s (event %d)' % (what, why, ev), {'scenario': line, 'seed': seed, 'why': why, 'trace': t})
    return traces


# ---------------------------------------------------------------------------------------------------- whole operations
WRAP = ('syscall pthread_create pthread_detach pthread_setaffinity_np pthread_mutex_lock pthread_mutex_trylock '
        'pthread_mutex_unlock pthread_cond_wait pthread_cond_signal pthread_cond_broadcast sched_yield usleep nanosleep').split()


def build_sched(ctx):
    """The whole extension, instrumented, its threads run by the deterministic scheduler."""
    d = ctx.path('msobj')
    os.makedirs(d, exist_ok=True)
    objs = []
    for f in ('coop', 'modsched'):
        o = os.path.join(d, f + '.o')
        subprocess.run(['g++', '-O2', '-fPIC', '-w', '-DSCHED_NAME(x)=__wrap_##x', '-I' + os.path.join(VERIF, 'harness'), '-c',
                        os.path.join(VERIF, 'harness', f + '.cpp'), '-o', o], check=True)
        objs.append(o)
    return ctx.build(flags=['-fsanitize=thread', '-O1'], tag='sched', extra_objs=objs, link=['-Wl,--wrap=' + w for w in WRAP])


def operations(ctx, pypath, cases, what, cpus=None):
    """Each case: dict(op, n, dt, seeds, workers).  Results, writes and stray accesses are checked."""
    jobs = [dict(script='modsched_drv.py', arg={'cases': [c], 'dataseed': ctx.seed}, pypath=pypath, cpus=cpus, timeout=150) for c in cases]
    fails = []

    def one(j):
        if len(fails) >= 3:
            return None             # enough: what is left would only take time
        r = ctx.driver(**j)
        if r['rc'] != 0 or not r['result']:
            fails.append(j)
        return r
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, jobs))
    cases, jobs, res = [list(x) for x in zip(*[(c, j, r) for c, j, r in zip(cases, jobs, res) if r])]
    confirmed = 0
    traces = []
    for c, j, r in zip(cases, jobs, res):
        if r['rc'] != 0 or not r['result']:
            if confirmed >= 2:
                continue
            again = ctx.driver(**j)
            if again['rc'] != 0 or not again['result']:
                confirmed += 1
                why = 'the call never returns' if again['rc'] in ('timeout', 77) else 'the process dies (%s)' % again['rc']
                ctx.violation('%s: %s n=%d workers=%s under some schedule: %s %s' % (what, c['op'], c['n'], c.get('workers'), why, (again['progress'] or '').strip()),
                              {'case': c, 'out': again['out'][-1500:]})
                continue
            r = again
        x = r['result']
        ctx.extra['operations_under_controlled_schedules'] = ctx.extra.get('operations_under_controlled_schedules', 0) + x['runs']
        ctx.extra['scheduling_points'] = ctx.extra.get('scheduling_points', 0) + x['steps']
        ctx.extra['thread_switches'] = ctx.extra.get('thread_switches', 0) + x['switches']
        if x['mismatch']:
            again = ctx.driver(**j)
            if not again['result'] or again['result']['mismatch']:
                m = x['mismatch'][0]
                ctx.violation('%s: %s %s n=%d gives another result under a schedule (seed %d): %s instead of %s at %s' % (
                    what, c['op'], c.get('dt', 'f8'), c['n'], m['seed'], m['got'][:1], m['want'][:1], m['first']), {'case': c, 'mismatch': x['mismatch'][:3]})
        for t in x['traces']:
            t['tag'] = '%s w=%s' % (t['tag'], c.get('workers'))
            t['job'] = j
            traces.append(t)
    n = 4
    with ThreadPoolExecutor(n) as ex:
        bads = list(ex.map(lambda k: validate(ctx, traces[k::n]), range(n)))
    bad = [b for l in bads for b in l]
    ctx.traces += len(traces) - len(bad)
    for t in traces[:1]:
        ctx.sample({'tag': t['tag'], 'bytes': t['jobs'], 'events': t['ev'][:10]})
    for t, why, ev in bad[:3]:
        again = ctx.driver(**t['job'])
        if not again['result'] or validate(ctx, again['result']['traces']):
            ctx.violation('%s: %s: %s' % (what, t['tag'], why), {'case': t['job']['arg'], 'why': why, 'trace': {k: t[k] for k in ('tag', 'jobs', 'stuck')}, 'events': t['ev'][:200]})
    ctx.log('%s: %d operations under controlled schedules, %d distinct traces' % (
        what, sum(r['result']['runs'] for r in res if r['result']), len(traces)))


LENS = [65535, 65536, 65537, 65536 + 16383, 81920, 81921, 16384 * 6 + 5, 16384 * 7 - 1, 16384 * 9, 16384 * 17 + 1]
ITEMS = [0, 1, 2, 3, 5, 8, 16, 33]


def rjob(rnd, modes='cwns'):
    m = rnd.choice(modes)
    return (m, rnd.choice(LENS) if m in 'cw' else rnd.choice(ITEMS[1:] if m == 's' else ITEMS),
            rnd.choice([0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 15, 63]))


def strat(k):
    return ('random', 'random', 'pct', 'random', 'rr')[k % 5]
