"""Runs whole operations of an instrumented module under the deterministic scheduler.
argument: {"so": path, "cases": [{"op":..., "n":..., ...}], "seeds": [...], "seed0":..}
result: {"traces": [{"tag","jobs","ev","stuck"}], "runs":.., "mismatch": [...]}"""
import ctypes, json, sys, os
inp, outp = sys.argv[1], sys.argv[2]
A = json.load(open(inp))
import numpy as np
np.seterr(all='ignore')
import pnumpy as pn
import pnumpy._pnumpy as raw
pn.initialize() if hasattr(pn, 'initialize') else None
lib = ctypes.CDLL(raw.__file__)
lib.ms_end.restype = ctypes.c_char_p
lib.ms_begin.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int,
                         ctypes.POINTER(ctypes.c_ulong), ctypes.c_char_p, ctypes.c_long]
lib.ms_stuck_file(os.fsencode(outp + '.progress'))


def rng(a):
    b = np.lib.array_utils.byte_bounds(a) if hasattr(np.lib, 'array_utils') else np.byte_bounds(a)
    return b


R = np.random.RandomState(A.get('dataseed', 1))


def data(dt, n):
    dt = np.dtype(dt)
    if dt.kind == 'b':
        return R.randint(0, 2, n).astype(bool)
    if dt.kind in 'iu':
        return R.randint(1, 100, n).astype(dt)
    if dt.kind == 'f':
        return (R.randint(-1000, 1000, n) / 8.0).astype(dt)
    if dt.kind == 'S':
        return R.randint(0, 5000, n).astype(dt)
    if dt.kind == 'U':
        return R.randint(0, 5000, n).astype('S6').astype(dt)
    raise ValueError(dt)


REC = np.dtype([('a', 'i1'), ('b', '<f8'), ('c', '<i4'), ('d', 'S5'), ('e', '<i2')])


def case(c):
    """-> (call, operands, output or None, exact result or None)"""
    op, n, dt = c['op'], c['n'], c.get('dt', 'f8')
    k = op.split(':')
    if k[0] == 'bin':
        f = getattr(np, k[1])
        a, b = data(dt, n), data(dt, n)
        if c.get('scalar'):
            b = b[:1].copy()
            if c['scalar'] == 2:
                a, b = b, a
        o = np.empty(n, f(a[:2], b[:2]).dtype)
        return (lambda: f(a, b, out=o)), [o, a, b], o
    if k[0] == 'inp':
        f = getattr(np, k[1])
        a0, b = data(dt, n), data(dt, n)
        o = a0.copy()
        def call():
            return f(o, b, out=o)
        call.reset = lambda: o.__setitem__(slice(None), a0)
        return call, [o, b], o
    if k[0] == 'strided':
        f = getattr(np, k[1])
        a, b = data(dt, 3 * n)[::3], data(dt, n)[::-1]
        o = np.empty(n, f(a[:2], b[:2]).dtype)
        return (lambda: f(a, b, out=o)), [o, a, b], o
    if k[0] == 'un':
        f = getattr(np, k[1])
        a = data(dt, n)
        if k[1] in ('sqrt', 'log', 'log2'):
            a = np.abs(a) + 1
        o = np.empty(n, f(a[:2]).dtype)
        return (lambda: f(a, out=o)), [o, a], o
    if k[0] == 'red':
        f = getattr(np, k[1])
        a = data(dt, n)
        return (lambda: f.reduce(a)), [a], None
    if k[0] == 'sort':
        a0 = data(dt, n)
        a = a0.copy()
        def call():
            a.sort(kind=k[1])
            return a
        call.reset = lambda: a.__setitem__(slice(None), a0)
        return call, [a], None
    if k[0] == 'argsort':
        a = data(dt, n)
        def call():
            r = a.argsort(kind=k[1])
            if k[1] != 'stable':            # any sorting permutation will do
                lib.sched_pause(1)
                r = [a[r], np.bincount(r, minlength=n)]
                lib.sched_pause(0)
            return r
        return call, [a], None
    if k[0] == 'lexsort':
        a, b = data(dt, n), data('i4', n) % 5
        return (lambda: pn.lexsort([a, b])), [a, b], None
    if k[0] == 'mask':
        a, m = data(dt, n), data('?', n)
        if k[1:] == ['chunks']:
            m[:16384], m[16384:40000] = True, False
        if k[1:] == ['strided']:
            a, m = data(dt, 3 * n)[::-3], np.repeat(m, 2)[::2]
        def call():
            return pn.getitem(a, m)
        if k[1:] == ['hook']:
            def call():
                raw.hook_enable()
                r = a[m]
                raw.hook_disable()
                return r
        return call, [a, m], None
    if k[0] == 'fancy':
        a = data(dt, 5000)
        i = R.randint(-5000, 5000, n).astype(k[1])
        if k[2:] == ['strided']:
            a, i = data(dt, 10000)[::-2], np.repeat(i, 3)[::3]
        return (lambda: pn.getitem(a, i)), [a, i], None
    if k[0] == 'arange':
        start, step = [float(x) if '.' in x else int(x) for x in k[1:]] if k[1:] else (3, 1)
        return (lambda: np.arange(start, start + n * step, step, dtype=dt)[:n]), [], None
    if k[0] == 'cast':
        a = data(dt, n)
        o = np.empty(n, k[1])
        return (lambda: np.copyto(o, a, casting='unsafe') or o), [o, a], o
    if k[0] == 'rec':
        a = np.zeros(n, REC)
        for f in REC.names:
            a[f] = data(REC[f], n)
        def call():
            r = pn.recarray_to_colmajor(a, parallel=bool(int(k[1])))
            return [r[f] for f in REC.names] if isinstance(r, dict) else [np.asarray(x) for x in r]
        return call, [a], None
    raise ValueError(op)


def flat(r):
    if isinstance(r, list):
        return [np.array(x) for x in r]
    return [np.array(r)]


def same(x, y):
    def b(p):           # the padding of a long double means nothing
        return np.ascontiguousarray(p).view('u1').reshape(-1, 16)[:, :10].tobytes() if p.dtype.char == 'g' and p.size else p.tobytes()
    return len(x) == len(y) and all(p.dtype == q.dtype and p.shape == q.shape and b(p) == b(q) for p, q in zip(x, y))


def near(x, y):
    return len(x) == len(y) and all(p.shape == q.shape and np.allclose(p.astype('f8'), q.astype('f8'), rtol=1e-4 if p.dtype == np.float32 else 1e-9, equal_nan=True)
                                    for p, q in zip(x, y) )


def fair(call):
    """One call with all threads taking turns."""
    lib.ms_begin(0, 2, 0, 0, 64, 0, 0, None, b'', 0)
    r = flat(call())
    lib.ms_end()
    return r


traces, runs, steps, sw, mism, wrk = {}, 0, 0, 0, [], 0
prog = open(outp + '.case', 'w')
for ci, c in enumerate(A['cases']):
    call, ops, out = case(c)
    reset = getattr(call, 'reset', lambda: None)
    if 'workers' in c:
        raw.thread_setworkers(c['workers'])
    reset()
    raw.atop_disable()
    ref = None
    if c['op'].split(':')[0] in ('bin', 'inp', 'strided', 'red', 'argsort', 'sort', 'arange', 'cast'):
        reset()
        ref = fair(call)
    raw.atop_enable()
    reset()
    own = fair(call)
    if ref is None:
        ref = own
    lohi = []
    for o in ops:
        lohi += list(rng(o))
    arr = (ctypes.c_ulong * max(1, len(lohi)))(*lohi)
    for s in c['seeds']:
        if out is not None:
            out.view('u1')[:] = 0xA5
        reset()
        prog.seek(0)
        prog.write('case %d seed %d %s          ' % (ci, s, c['op']))
        prog.flush()
        rec = 1 if out is not None else 0
        kind = s % 6
        strat = [0, 0, 1, 0, 1, 2][kind]
        ps = [0x8000, 0x2000, 0, 0xC000, 0, 0][kind]
        pp = [0x100, 0x40, 0, 0x20, 0, 0][kind]
        g = bytes.fromhex(c['guide']) if c.get('guide') else b''
        lib.ms_begin(s, strat, ps, pp, 64, rec, len(ops), arr, g, len(g))
        r = call()
        d = json.loads(lib.ms_end().decode())
        runs += 1
        steps += d['steps']; sw += d['switches']; wrk += d['workerWrites']
        r = flat(r)
        if not (same(r, ref) or (c.get('approx') and near(r, ref))):
            bad = [int(np.flatnonzero(x != y)[0]) if x.shape == y.shape and (x != y).any() else -1 for x, y in zip(r, ref)] if len(r) == len(ref) else []
            mism.append({'case': c, 'seed': s, 'first': bad, 'got': [str(x.reshape(-1)[b:b + 4]) for x, b in zip(r, bad) if b >= 0], 'want': [str(x.reshape(-1)[b:b + 4]) for x, b in zip(ref, bad) if b >= 0]})
        ev = [['s', 0, 1, 0, 0]]
        tot = 0
        for t, lo, hi in d['pieces']:
            ev += [['b', t, 1, lo, hi - lo], ['e', t, 1, lo, hi - lo]]
            tot += hi - lo
        n = tot           # not every store is instrumented: that all elements are there is seen from the values
        ev.append(['r', 0, 1, 0, 0])
        if d['stray']:
            ev.append(['x', 0, 1, 0, 0])
        ev.append(['q', 0, 0, 0, 0])
        stuck = '' if d['quiet'] else 'the workers never go back to sleep'
        key = json.dumps([n, ev])
        if key not in traces:
            traces[key] = {'tag': 'case %d seed %d %s %s n=%d' % (ci, s, c['op'], c.get('dt', 'f8'), c['n']), 'case': ci, 'seed': s,
                           'jobs': [n], 'ev': ev, 'stuck': stuck}
json.dump({'traces': list(traces.values()), 'runs': runs, 'steps': steps, 'switches': sw, 'mismatch': mism, 'workerWrites': wrk}, open(outp, 'w'))
