"""C01-C04 and C07: elementwise operations.  UfuncExec.tla (execution on memory) is model checked; its call shapes
(UfuncScen.tla) are replayed into the real ufuncs with values and results from IntSem, FloatSem and BoolTables."""
import concurrent.futures as cf, json, os, random, re
import numpy as np
from . import inttab, floattab
from .core import NCPU, CheckError

CFG = 'CONSTANT Size=%d\nCONSTANT MaxN=%d\nCONSTANT VW=%d\nCONSTANT Chunk=%d\nCONSTANT Threshold=%d\nCONSTANT Threads={%s}\n' \
      'CONSTANT Binary=%s\nCONSTANT Steps={%s}\nCONSTANT Bug="%s"\nCHECK_DEADLOCK FALSE\n'


def exec_cfg(size, n, vw=2, chunk=2, th=3, threads='1,2', binary=False, steps='1,2', bug=''):
    return CFG % (size, n, vw, chunk, th, threads, 'TRUE' if binary else 'FALSE', steps, bug)


def check_exec(ctx, good, bugs):
    """good: parameter dicts that must be Exact; bugs: switches TLC must reject"""
    jobs = [(g, None) for g in good] + [(dict(size=6, n=4, steps='1,2'), b) for b in bugs]

    def one(j):
        d, b = j
        cfg = 'SPECIFICATION Spec\nINVARIANT Exact\nINVARIANT Frame\n' + ('' if b else 'PROPERTY Ends\n' if d.get('live') else '') + \
            exec_cfg(**{k: v for k, v in d.items() if k != 'live'}, bug=b or '')
        return ctx.tlc('UfuncExec', cfg=cfg, workers=2, heap='2g', timeout=800)
    with cf.ThreadPoolExecutor(4) as ex:
        for (d, b), r in zip(jobs, ex.map(one, jobs)):
            if b and not r.violated:
                raise CheckError('UfuncExec with Bug=%s is not rejected: %s' % (b, r.error_text()[:500]))
            if not b and not r.ok:
                raise CheckError('UfuncExec %s: %s' % (d, r.error_text()[:1500]))
    ctx.log('UfuncExec: %d configurations exact, %d wrong variants rejected' % (len(good), len(bugs)))
    ctx.extra['wrong_variants_rejected'] = ctx.extra.get('wrong_variants_rejected', 0) + len(bugs)


def scenarios(ctx):
    out = ctx.path('scen.json')
    cfg = 'SPECIFICATION SSpec\nCONSTANT N=9\nCONSTANT OutFile="%s"\n' % out + exec_cfg(600, 3, 4, 8, 6, '1', True, '1,2')
    ctx.tlc_ok('UfuncScen', cfg=cfg)
    d = json.load(open(out))
    ctx.log('UfuncScen: %d shapes apart, %d sharing memory' % (len(d['apart']), len(d['shared'])))
    return out


def bool_tables(ctx):
    out = ctx.path('bool.json')
    ctx.tlc_ok('BoolTables', cfg='SPECIFICATION Spec\nCONSTANT OutFile="%s"\nCHECK_DEADLOCK FALSE\n' % out)
    return json.load(open(out))


# ops on integers, floats, booleans that the tables define
class Tables:
    def __init__(self, ctx, int2, int1, flt2, flt1, boo, int_types=tuple(inttab.TYPES), flt_types=('f4', 'f8'), aliases=True):
        self.data, self.keys = {}, []
        with cf.ThreadPoolExecutor(4) as ex:
            fi = ex.submit(inttab.tables, ctx, list(int_types), int2, int1) if int2 or int1 else None
            ff = ex.submit(floattab.tables, ctx, flt2, flt1, list(flt_types)) if flt2 or flt1 else None
            fb = ex.submit(bool_tables, ctx) if boo else None
            fs = ex.submit(scenarios, ctx)
            if fi:
                al, res = fi.result()
                al, res = dict(al), dict(res)
                if aliases:
                    for a, t in (('q', 'i8'), ('Q', 'u8')):
                        if t in al:
                            al[a] = al[t].astype(a)
                            for (op, tt), v in list(res.items()):
                                if tt == t:
                                    res[op, a] = (v[0] if v[0].dtype == bool else v[0].astype(a), v[1])
                for t in al:
                    self.data['al ' + t] = al[t]
                for (op, t), (v, ok) in res.items():
                    self.put(op, t, v, ok)
            if ff:
                al, res = ff.result()
                for t in al:
                    self.data['al ' + t] = al[t]
                for (op, t), (v, ok, az) in res.items():
                    self.put(op, t, v, ok, az)
            if fb:
                b = fb.result()
                self.data['al ?'] = np.array(b['bytes'], dtype=np.uint8).view(bool)
                for op in boo:
                    v = np.array((b['two'] if op in b['two'] else b['one'])[op], dtype=np.uint8).view(bool)
                    self.put(op, '?', v, np.ones(v.shape, bool))
            self.scen = fs.result()
        self.path = ctx.path('tables.npz')
        np.savez(self.path, **self.data)

    def put(self, op, t, v, ok, az=None):
        self.data['res %s %s' % (op, t)] = v
        self.data['ok %s %s' % (op, t)] = ok
        if az is not None:
            self.data['az %s %s' % (op, t)] = az
        self.keys.append([op, t])


def replay(ctx, tabs, ops, jobs=16, apart=(0, 0, 0), shared=(0, 0, 0), nd=0, every=False, refs=0, overlap=0, acc=0, traces=0, lanes=0,
           timeout=600, extra=None):
    rnd = random.Random(ctx.seed + 5)
    keys = [k for k in tabs.keys] if tabs else []
    rnd.shuffle(keys)
    J = []
    workers = [None, 1, 2, 3, 7, 15]
    for i in range(jobs):
        J.append(dict(script='ufunc_drv.py', timeout=timeout, arg=dict(
            seed=ctx.seed * 1000 + i, ops=ops, tables=tabs.path if tabs else None, scen=tabs.scen if tabs else None, only=keys[i::jobs],
            apart=apart, shared=shared, nd=nd, every=every, refs=refs // jobs, overlap=overlap // jobs, acc=acc, lanes=lanes,
            traces=traces // jobs, trace_file=ctx.path('trace-%d' % i), workers=workers[i % len(workers)], threads=i % 5 != 4, **(extra or {}))))
    tot = {}
    for j, r in zip(J, ctx.drivers(J)):
        if r['rc'] != 0 or not r['result']:
            # once more, to be sure
            r2 = ctx.driver(**j)
            if r2['rc'] != 0 or not r2['result']:
                ctx.violation('a call ends the process or hangs (%s): %s' % (r2['rc'], (r2['progress'] or '').strip()[:300]), {'job': j['arg'], 'out': r2['out'][-1500:]})
                continue
            r = r2
        for k, v in r['result']['counts'].items():
            tot[k] = tot.get(k, 0) + v
        if r['result']['fails']:
            r2 = ctx.driver(**j)
            again = {f['what'] for f in (r2['result'] or {'fails': []})['fails']}
            for f in r['result']['fails'][:4]:
                if f['what'] in again or r2['result'] is None or len(again):
                    ctx.violation(f['what'], dict(f, seed=j['arg']['seed']))
    if traces:
        check_traces(ctx, [j['arg']['trace_file'] for j in J])
    ctx.traces += tot.get('shape', 0) + tot.get('overlap', 0) + tot.get('accumulate', 0) + tot.get('nd', 0) + tot.get('lanes', 0) + tot.get('reference', 0)
    ctx.extra['replayed'] = tot
    ctx.sample({'tables': len(keys), **tot})
    ctx.log('replayed: %s' % tot)
    return tot


def check_traces(ctx, files):
    """every recorded memory image must be the one UfuncExec's Expected gives"""
    jobs = []
    for f in files:
        if not os.path.exists(f):
            continue
        cfg = 'SPECIFICATION TSpec\nINVARIANT Valid\nCONSTANT Fn <- FnT\nCONSTANT TraceFile="%s"\n' % f + exec_cfg(4, 1)
        jobs.append((f, cfg))

    def one(j):
        return ctx.tlc('UfuncTrace', cfg=j[1], workers=1, heap='1g', timeout=600)
    n = 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (f, cfg), r in zip(jobs, ex.map(one, jobs)):
            lines = open(f).read().splitlines()
            if r.ok:
                n += len(lines)
            elif r.violated:
                k = re.findall(r'^/\\ i = (\d+)', r.out, re.M)
                rec = json.loads(lines[int(k[-1]) - 1]) if k else {}
                ctx.violation('recorded %s of %s, n=%s x=%s y=%s out=%s is not what the specification allows' % (
                    rec.get('kind'), rec.get('op'), rec.get('n'), rec.get('x'), rec.get('y'), rec.get('o')), rec)
            else:
                raise CheckError('UfuncTrace: ' + r.error_text()[:1500])
    ctx.traces += n
    ctx.log('UfuncTrace: %d recorded memory images validated' % n)
