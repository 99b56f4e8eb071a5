"""Positions: argmin, argmax and searchsorted of NumPy and of pnumpy, and pnumpy's own sort, argsort and lexsort called as the NumPy functions of the
same names are (arguments, containers, errors), against plain NumPy (evaluated before pnumpy is loaded); the shapes of Wrapped.tla; records for
PositionTrace.tla, built from ranks."""
import json, random, sys, warnings
import numpy as np
arg = json.load(open(sys.argv[1]))
np.seterr(all='ignore')
warnings.simplefilter('ignore')
fails, counts = [], {}
_pf = open(sys.argv[2] + '.progress', 'w')
pn = None


def progress(s):
    _pf.seek(0)
    _pf.write(s.ljust(600)[:600])
    _pf.flush()


def fail(what, **k):
    if len(fails) < 12:
        fails.append(dict(what=what, **k))
    counts['failed'] = counts.get('failed', 0) + 1


def tick(k, n=1):
    counts[k] = counts.get(k, 0) + n


TYPES = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'f2', 'f4', 'f8', 'g', 'S3', 'U2', '>i4', '>f8', '>u2', 'M8[s]', 'm8[ms]', 'c8', 'c16', 'O']


def pool(t, rng, k):
    """at most k different values of dtype t"""
    d = np.dtype(t)
    e = d.newbyteorder('=')
    if d.kind == 'b':
        v = np.array([False, True])
    elif d.kind in 'iu':
        ii = np.iinfo(e)
        v = np.array([ii.min, ii.max, 0, 1, ii.max - 1, ii.min + 1, ii.max // 2, ii.max // 2 + 1] + [int(x) for x in rng.integers(0, 127, 60)], dtype=e)
    elif d.kind == 'f':
        f = np.finfo(e)
        v = np.concatenate([np.array([0.0, -0.0, np.inf, -np.inf, f.max, f.min, f.tiny, -f.tiny, 1, -1, np.nan, np.nan], dtype=e), rng.normal(size=60).astype(e)])
    elif d.kind == 'c':
        v = np.array([complex(a, b) for a in (0.0, -0.0, 1, -1, np.inf, np.nan) for b in (0.0, 2, -2, -np.inf, np.nan)], dtype=e)
    elif d.kind in 'Mm':
        v = np.concatenate([rng.integers(-9, 10 ** 9, 40), [np.iinfo('i8').min, np.iinfo('i8').max, 0]]).astype('i8').view(e)
    elif d.kind == 'O':
        v = np.array([3, 10 ** 30, -7, 0, 5, 2.5, True, -10 ** 40], dtype=object)
    else:
        al = 'aAzZ01~'
        w = [''.join(rng.choice(list(al), int(rng.integers(0, 4)))) for _ in range(40)] + (['\u0141', '\U0001F600'] if d.kind == 'U' else ['\xff\xfe'])
        v = np.array([x.encode('latin1') for x in w] if d.kind == 'S' else w, dtype=e)
    v = v[rng.permutation(len(v))][:k]
    return v.astype(d)


LENS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 257, 1000, 4097, 16384, 65535, 65536, 70001]


def layout(a, rnd):
    """the same values in another memory layout"""
    k = rnd.choice(['c', 'c', 'f', 'back', 'gap', 'off', 'swap', 'ro'])
    if k == 'f':
        return np.asfortranarray(a)
    if k == 'back':
        return a[..., ::-1].copy()[..., ::-1]
    if k == 'gap' and a.ndim:
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 3 + 1,), a.dtype)
        v = b[..., 1::3][..., :a.shape[-1]]
        v[...] = a
        return v
    if k == 'off' and a.dtype.kind != 'O' and a.size:
        raw = np.zeros(a.nbytes + 1, 'u1')
        v = raw[1:1 + a.nbytes].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v
    if k == 'swap' and a.ndim > 1:
        return np.ascontiguousarray(np.swapaxes(a, 0, -1)).swapaxes(0, -1)
    if k == 'ro':
        a = a.copy()
        a.flags.writeable = False
    return a


class Sub(np.ndarray):
    pass


def container(a, rnd):
    k = rnd.choice(['array', 'array', 'array', 'array', 'list', 'tuple', 'matrix', 'masked', 'subclass', 'scalar', 'iface', 'memory'])
    if a.dtype.kind in 'VOMm' and k not in ('subclass',):
        k = 'array'
    if k in ('list', 'tuple', 'memory', 'iface') and a.size > 5000:
        k = 'array'
    if k == 'list':
        return a.tolist(), k
    if k == 'tuple':
        return tuple(a.tolist()), k
    if k == 'matrix' and a.ndim <= 2:
        return np.matrix(a), k
    if k == 'masked':
        m = np.random.default_rng(a.size + 3).random(a.shape) < .3
        return np.ma.array(a, mask=m), k
    if k == 'subclass':
        return a.view(Sub), k
    if k == 'scalar' and a.size and a.dtype.kind in 'biuf':
        return a.flat[0], k
    if k == 'memory' and a.dtype.kind in 'iuf' and a.dtype.isnative and a.dtype.char not in 'eg':
        return memoryview(np.ascontiguousarray(a)), k
    if k == 'iface':
        class I:
            __array_interface__ = a.__array_interface__
            keep = a
        return I(), k
    return a, 'array'


def outcome(f, *a, **k):
    """the result, or the class of the error"""
    try:
        return f(*a, **k)
    except Exception as e:
        return ('error', type(e).__name__)


def same(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return x == y
    if type(x) is not type(y):
        return False
    if isinstance(x, np.ma.MaskedArray):
        return same(np.ma.getmaskarray(x), np.ma.getmaskarray(y)) and same(np.asarray(x.filled(0)) if x.dtype.kind in 'biufc' else np.asarray(x), np.asarray(y.filled(0)) if x.dtype.kind in 'biufc' else np.asarray(y))
    if isinstance(x, (np.ndarray, np.generic)):
        if x.dtype != y.dtype or x.shape != y.shape:
            return False
        if x.dtype.kind in 'fc':
            return bool(np.array_equal(x, y, equal_nan=True))
        if x.dtype.kind in 'Mm':
            return bool(np.array_equal(np.asarray(x).astype('i8'), np.asarray(y).astype('i8')))
        return bool(np.all(np.asarray(x) == np.asarray(y)))
    return x == y


def case(seed):
    """(description, {form: outcome}); before pnumpy is loaded only NumPy's own function gives 'np'"""
    rnd, rng = random.Random(seed), np.random.default_rng(seed)
    fn = rnd.choice(['argmin', 'argmax', 'argmin', 'argmax', 'searchsorted', 'searchsorted', 'sort', 'argsort', 'lexsort', 'record'])
    t = rnd.choice(TYPES)
    n = rnd.choice(LENS)
    if rnd.random() < .7:
        n = min(n, 300)
    if t in ('O', 'g', 'S3', 'U2', 'c8', 'c16', 'f2'):
        n = min(n, 5000)
    p = pool(t, rng, rnd.choice([1, 2, 3, 5, 100]))
    p = p if len(p) else np.zeros(1, t)
    a = p[rng.integers(0, len(p), n)]
    if rnd.random() < .4 and n > 1:     # one value nearly everywhere, the interesting items at chosen places
        a[:] = p[0]
        for _ in range(rnd.choice([1, 2, 3])):
            a[rnd.choice([0, 1, n - 1, n // 2, max(0, n - 2), rnd.randrange(n)])] = p[rnd.randrange(len(p))]
    name = '%s %s n=%d seed=%d' % (fn, t, n, seed)
    call = dict(fn=fn, args=[], kw={})
    if fn in ('argmin', 'argmax', 'sort', 'argsort'):
        nd = rnd.choice([1, 1, 1, 2, 2, 3])
        if nd > 1 and n > 4:
            m = rnd.choice([1, 2, 3, 4])
            sh = (m, n // m) if nd == 2 else (2, m, n // (2 * m))
            a = a[:int(np.prod(sh))].reshape(sh)
        x, c = container(layout(a, rnd), rnd)
        kw = {}
        ax = rnd.choice([None, -1, 0, 1, 2, -2, -3, 7, 'skip', 'skip', 'skip'])
        if ax != 'skip':
            kw['axis'] = ax
        if fn in ('argmin', 'argmax'):
            if rnd.random() < .3:
                r = outcome(getattr(np, fn), np.asarray(a), **kw)
                sh = r.shape if isinstance(r, (np.ndarray, np.generic)) else ()
                o = rnd.choice(['right', 'right', 'i4', 'shape', 'f8', 'list', 'noncontig'])
                call['out'] = (o, sh)
        else:
            k = rnd.choice(['quicksort', 'stable', 'mergesort', 'heapsort', None, 'skip', 'bogus', 'Q', 'm'])
            if k != 'skip':
                kw['kind'] = k
            if fn == 'argsort' and kw.get('kind') not in ('stable', 'mergesort', 'm', 'bogus'):
                kw['kind'] = 'stable'
            if c == 'masked' and kw.get('kind') != 'bogus':      # masked items tie with the greatest value
                kw['kind'] = 'stable'
            if rnd.random() < .1:
                kw['order'] = 'x'
        call['args'], call['kw'] = [x], kw
        name += ' %s shape=%s %s' % (c, a.shape, {**kw, **({'out': call['out']} if 'out' in call else {})})
    elif fn == 'searchsorted':
        s = np.argsort(a, kind='stable')
        v = p[rng.integers(0, len(p), rnd.choice([0, 1, 2, 5, 40]))]
        if rnd.random() < .3 and a.dtype.kind in 'iuf':
            v = v.astype(rnd.choice(['f8', 'i8', 'f4', 'i2']))
        kw = {}
        w = rnd.choice(['sorted', 'sorted', 'sorter', 'sorter4', 'badlen', 'badtype'])
        if w == 'sorted':
            a = a[s]
        else:
            kw['sorter'] = s if w == 'sorter' else s.astype('i4') if w == 'sorter4' else s[:-1] if w == 'badlen' else s.astype('f8')
        sd = rnd.choice(['left', 'right', 'right', 'skip', 'l', 'bogus'])
        if sd != 'skip':
            kw['side'] = sd
        x, c = container(layout(a, rnd), rnd)
        if c in ('matrix', 'scalar'):
            x, c = a, 'array'
        q = rnd.choice(['array', '2d', 'scalar', 'list', 'strided'])
        if q == '2d' and len(v) % 2 == 0:
            v = v.reshape(2, -1)
        elif q == 'scalar' and len(v):
            v = v[0]
        elif q == 'list' and v.dtype.kind in 'biufSU' and len(v):
            v = v.tolist()
        elif q == 'strided':
            v = np.repeat(v, 2)[::2]
        call['args'], call['kw'] = [x, v], kw
        name += ' %s %s %s' % (c, w, {k: v2 for k, v2 in kw.items() if k != 'sorter'})
    elif fn == 'lexsort':
        keys = [p[rng.integers(0, len(p), n)] for _ in range(rnd.choice([1, 2, 3]))]
        if rnd.random() < .1 and len(keys) > 1:
            keys[1] = keys[1][:-1]
        if t in ('O', 'c8', 'c16'):
            keys = [np.asarray(k, dtype=object if t == 'O' else t) for k in keys]
        x = rnd.choice([keys, tuple(keys), [layout(k, rnd) for k in keys]])
        call['args'] = [tuple(x) if rnd.random() < .8 else x]
        if rnd.random() < .2:
            call['kw'] = {'axis': rnd.choice([0, -1, 0])}
        name += ' %d keys %s' % (len(keys), call['kw'])
    else:
        d = np.dtype([('x', rnd.choice(['i4', 'f8', 'S3', 'u1'])), ('y', rnd.choice(['i8', 'f4', 'i2']))])
        n = min(n, 500)
        r = np.zeros(n, d)
        r['x'] = rng.integers(0, 3, n)
        r['y'] = rng.integers(0, 3, n)
        call['fn'] = rnd.choice(['sort', 'argsort'])
        if rnd.random() < .3:
            r = r.view(np.recarray)
        call['args'], call['kw'] = [r], dict(order=rnd.choice(['x', 'y', ['y', 'x'], ['x'], None, 'nosuch']), kind='stable')
        name += ' ' + str(call['kw'])
    fn, args, kw = call['fn'], call['args'], call['kw']

    def mk():
        if 'out' not in call:
            return kw, None
        o, sh = call['out']
        v = {'right': lambda: np.full(sh, -5, 'i8'), 'i4': lambda: np.full(sh, -5, 'i4'), 'f8': lambda: np.full(sh, -5, 'f8'), 'shape': lambda: np.full(tuple(sh) + (2,), -5, 'i8'),
             'list': lambda: [1], 'noncontig': lambda: np.full(tuple(sh) + (2,), -5, 'i8')[..., 0]}[o]()
        return dict(kw, out=v), v

    def one(f, *a):
        k, v = mk()
        r = outcome(f, *a, **k)
        if v is not None and isinstance(v, np.ndarray):
            if r is v:
                r = 'out'
            return (r if isinstance(r, (tuple, str)) else 'a %s which is not out' % type(r).__name__, v.tolist())
        return r
    before = [np.array(x, copy=True) if isinstance(x, np.ndarray) else None for x in args]
    res = {'np': one(getattr(np, fn), *args)}
    if pn is not None:
        res['pn'] = one(getattr(pn, fn), *args)
        if fn == 'lexsort' and isinstance(res['pn'], np.ndarray):      # pnumpy's positions are 32 bit integers
            res['pn'] = res['pn'].astype('i8') if res['pn'].dtype == 'i4' else res['pn']
        x = args[0]
        if fn in ('argmin', 'argmax', 'searchsorted', 'argsort') and type(x) is np.ndarray:
            res['method'] = one(lambda *a, **k: getattr(x, fn)(*a[1:], **k), *args)
    for x, b in zip(args, before):
        if b is not None and not same(np.asarray(x), np.asarray(b)):
            res['changed'] = True
    return name, res, mk()[1] is not None


# ---------------------------------------------------------------- the shapes of Wrapped.tla
class Bare:
    def __init__(s, a):
        s.a = np.asarray(a)

    def __array__(s, dtype=None):
        return s.a


class Own(Exception):
    pass


def wrapped():
    for m, w, sc, want in arg.get('shapes', []):
        for fn, args, kw in [('argmin', (), {}), ('argmax', (), {}), ('argsort', (), {}), ('searchsorted', (2,), {}), ('searchsorted', ([2, 9],), {'side': 'right'}), ('argmax', (), {'axis': 0}),
                             ('argsort', (), {'axis': -1, 'kind': 'stable'})]:
            data = np.array([1, 2, 2, 5, 5], 'i8')
            plain = getattr(np, fn)(data, *args, **kw)
            if np.isscalar(plain) != sc:
                continue
            body = {}
            if w:
                class Box:
                    def __init__(s, r):
                        s.r = r
                body['__array_wrap__'] = lambda s, r, ctx=None: Box(r)
            if m == 'works':
                body[fn] = lambda s, *a, **k: 'mine'
            elif m == 'refuses':
                body[fn] = lambda s: 'mine' if False else (_ for _ in ()).throw(TypeError())
            elif m == 'fails':
                def f(s, *a, **k):
                    raise Own()
                body[fn] = f
            x = type('Shape', (Bare,), body)(data)
            progress('shape %s %s %s %s' % (m, w, sc, fn))
            r = outcome(getattr(pn, fn), x, *args, **kw)
            if want == "method's":
                ok = r == 'mine' if isinstance(r, str) else False
            elif want == 'its error':
                ok = r == ('error', 'Own')
            elif want == 'wrapped':
                ok = type(r).__name__ == 'Box' and type(r.r) is np.ndarray and np.array_equal(r.r, plain)
            else:
                ok = type(r) is type(plain) and np.array_equal(r, plain)
            if not ok:
                fail('pn.%s of an object whose method %s and which %s: %r, specification says %s' % (fn, {'none': 'is missing', 'works': 'works', 'refuses': 'refuses', 'fails': 'fails'}[m], 'wraps results' if w else 'does not wrap', r, want))
            tick('shapes')


# ---------------------------------------------------------------- records
def record(count, path, seed):
    rnd, rng = random.Random(seed), np.random.default_rng(seed)
    tabs = {t: np.array([np.iinfo(t).min, -3, 0, 7, np.iinfo(t).max], t) for t in ('i1', 'i2', 'i4', 'i8')}
    tabs.update({t: np.array([0, 1, np.iinfo(t).max // 2, np.iinfo(t).max // 2 + 1, np.iinfo(t).max], t) for t in ('u1', 'u2', 'u4', 'u8')})
    tabs.update({t: np.array([-np.inf, -2, 0, 1, np.inf, np.nan], t) for t in ('f2', 'f4', 'f8', 'g')})
    tabs.update({'S2': np.array([b'', b'a', b'aa', b'b', b'\xff'], 'S2'), 'U2': np.array(['', 'a', 'aa', 'b', '\u0141'], 'U2'), '?': np.array([False, True])})
    tabs.update({'>i4': tabs['i4'].astype('>i4'), '>f8': tabs['f8'].astype('>f8'), 'm8[s]': np.array([-5, 0, 3, 9, 'NaT'], 'm8[s]')})
    f = open(path, 'w')
    for _ in range(count):
        t = rnd.choice(sorted(tabs))
        tab = tabs[t]
        nan = len(tab) - 1 if tab.dtype.kind in 'fm' else 99
        n = rnd.choice([1, 2, 3, 5, 8, 9, 16, 17, 31, 33, 64, 65, 70])
        top = len(tab) if rnd.random() < .5 or nan == 99 else nan
        key = rng.integers(0, top, n)
        a = layout(tab[key], rnd)
        u = rnd.choice(['np', 'pn', 'method'])
        if rnd.random() < .5:
            if tab.dtype.kind in 'SU' and u == 'method' and False:
                continue
            least = rnd.random() < .5
            fn = 'argmin' if least else 'argmax'
            progress('record %s %s %s %d' % (u, fn, t, n))
            out = getattr(np, fn)(a) if u == 'np' else getattr(pn, fn)(a) if u == 'pn' else getattr(a, fn)()
            rec = dict(kind='extreme', key=key.tolist(), nan=nan, least=bool(least), out=int(out))
        else:
            q = rng.integers(0, len(tab), rnd.choice([1, 2, 6]))
            side = rnd.choice(['left', 'right'])
            sorter = sorted(range(n), key=lambda k: (key[k], rnd.random()))
            progress('record %s searchsorted %s %d' % (u, t, n))
            if rnd.random() < .5:
                args, kw = (tab[np.sort(key)], tab[q]), dict(side=side)
            else:
                args, kw = (a, tab[q]), dict(side=side, sorter=sorter)
            out = (np.searchsorted if u == 'np' else pn.searchsorted if u == 'pn' else type(a).searchsorted)(*args, **kw)
            rec = dict(kind='search', key=key.tolist(), query=q.tolist(), right=side == 'right', out=out.tolist())
        f.write(json.dumps(rec) + '\n')
        tick('traces')
    f.close()


def main():
    global pn
    base = arg['seed'] * 1000003
    refs = []
    for i in range(arg['cases']):
        progress('plain case %d' % (base + i))
        refs.append(case(base + i))
    import pnumpy
    pn = pnumpy
    pn.initialize()
    if arg.get('workers') is not None:
        pn.thread_setworkers(arg['workers'])
    if not arg.get('threads', True):
        pn.thread_disable()
    for i, (name, ref, _) in enumerate(refs):
        progress(name)
        _, res, _ = case(base + i)
        if res.pop('changed', False):
            fail('%s: an argument was changed' % name)
        for k, v in res.items():
            if not same(v, ref['np']):
                fail("%s: %s gives %.120r instead of plain numpy's %.120r" % (name, k, v, ref['np']))
            tick('calls')
    wrapped()
    record(arg['records'], arg['trace_file'], arg['seed'])
    json.dump({'fails': fails, 'counts': counts}, open(sys.argv[2], 'w'))


main()
