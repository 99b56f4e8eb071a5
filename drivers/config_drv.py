"""Replays histories of configuration calls (and computations) on the real module and records every answer."""
import json, os, sys
import numpy as np
arg = json.load(open(sys.argv[1]))
import pnumpy as pn
import pnumpy._pnumpy as _p
from drivers import compute_set as cs
sys.stdout.flush()
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)            # the ledger prints


def save(path, arrays):
    np.savez(path, *arrays)


def load(path):
    z = np.load(path)
    return [z['arr_%d' % i] for i in range(len(z.files))]


def probes():
    """Operations whose operands are watched: do pnumpy's loops touch them, and which threads?  Needs the instrumented module."""
    import ctypes
    lib = ctypes.CDLL(_p.__file__)
    lib.ms_end.restype = ctypes.c_char_p
    lib.ms_begin.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int,
                             ctypes.POINTER(ctypes.c_ulong), ctypes.c_char_p, ctypes.c_long]
    lib.ms_stuck_file(os.fsencode(sys.argv[2] + '.stuck'))
    n = 300000
    r = np.random.RandomState(5)
    a, b, o = r.randint(1, 99, n).astype('i8'), r.randint(1, 99, n).astype('i8'), np.empty(n, 'i8')
    x, y, m = r.rand(n), np.empty(n), r.randint(0, 2, n).astype(bool)
    t = np.empty(n, bool)
    s = r.permutation(n).astype('f8')
    w = s.copy()
    idx = r.randint(0, n, n)
    rec = np.zeros(n, [('a', 'i4'), ('b', 'i1'), ('c', 'f8')])
    table = dict(add=((a, b, o), lambda: np.add(a, b, out=o)), less=((x, s, t), lambda: np.less(x, s, out=t)), floor=((x, y), lambda: np.floor(x, out=y)),
                 negative=((a, o), lambda: np.negative(a, out=o)), sin=((x, y), lambda: np.sin(x, out=y)), max=((a,), lambda: np.maximum.reduce(a)),
                 sort=((w,), lambda: (w.__setitem__(slice(None), s), w.sort())), argsort=((s,), lambda: s.argsort()),
                 mask=((s, m), lambda: s[m]), fancy=((s, idx), lambda: s[idx]), getmask=((s, m), lambda: pn.getitem(s, m)),
                 getfancy=((s, idx), lambda: pn.getitem(s, idx)), lexsort=((s,), lambda: pn.lexsort([s])), colmajor=((rec,), lambda: pn.recarray_to_colmajor(rec)))

    def use(u):
        ops, f = table[u]
        l = []
        for z in ops:
            k = z.__array_interface__['data'][0]
            l += [k, k + z.nbytes]
        lib.ms_begin(0, 2, 0, 0, 64, 0, len(ops), (ctypes.c_ulong * len(l))(*l), b'', 0)
        f()
        d = json.loads(lib.ms_end().decode())
        return 'workers' if d['others'] else 'caller' if d['own'] else 'plain'
    return use


BADARGS = {'atop_setworkers': [('add',), (), ('add', 'x', 2), (5, 1, 1), ('add', 5, 2 ** 40), ('add', 5, 1, 1)],
           'thread_setworkers': [(), ('x',), (2 ** 40,), (1.5,), (None,), (1, 2), (-2 ** 70,)],
           'atop_info': [('add',), (3, 4), ('add', 'x'), ('add', 2 ** 40), ('add', 1, 2)]}
KEYS = None


def call(c, state):
    global KEYS
    f = c['f']
    try:
        if f == 'compute':
            fn, exact = state['table'][c['u']]
            ref = state['ref'].get(c['u'])
            if ref is None:
                ref = state['ref'][c['u']] = load(os.path.join(arg['ref'], c['u'] + '.npz'))
            return 'fresh' if cs.same(fn(), ref, exact) else 'different'
        if f == 'use':
            return state['use'](c['u'])
        if f == 'atop_keys':
            k = sorted(map(repr, pn.atop_info()))
            if KEYS is None:
                KEYS = k
            return 'same' if KEYS == k else 'changed'
        if not c['ok']:
            l = BADARGS[f]
            r = getattr(pn, f)(*l[c['n'] % len(l)])
            return 'rejected' if (r is False and f == 'atop_setworkers') else repr(r)
        if f == 'atop_setworkers':
            r = pn.atop_setworkers(c['u'], c['d'], c['n'])
            return 'rejected' if r is False else repr(r)
        if f == 'atop_info':
            r = pn.atop_info(c['u'], c['d'])
            return repr(r) if r is False else repr(r['MaxThreads'])
        if f == 'thread_setworkers':
            return repr(pn.thread_setworkers(c['n']))
        if f in ('hook_enable', 'hook_disable'):
            return repr(getattr(_p, f)())
        return repr(getattr(pn, f)())
    except Exception as e:
        if not c['ok'] or f == 'atop_setworkers':
            return 'rejected'
        return 'exception ' + type(e).__name__ + ' ' + str(e)[:80]


out = {}
if 'fresh' in arg:
    t = cs.table(pn)
    fn, exact = t[arg['fresh']]
    save(arg['file'], fn())
elif 'names' in arg:
    out['names'] = sorted(cs.table(pn))
    out['hooked'] = sorted([k[0], k[1], pn.atop_info(k[0], k[1])['MaxThreads']] for k in pn.atop_info())
else:
    st = {'table': cs.table(pn) if arg.get('ref') else None, 'ref': {}, 'use': probes() if arg.get('use') else None}
    prog = open(sys.argv[2] + '.progress', 'w')
    res = []
    for i, c in enumerate(arg['hist']):
        prog.seek(0)
        prog.write('%d %s' % (i, json.dumps(c)))
        prog.flush()
        res.append(call(c, st))
    out['res'] = res
json.dump(out, open(sys.argv[2], 'w'))
