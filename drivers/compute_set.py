"""A fixed set of computations that together reach every part of pnumpy; each returns a list of arrays."""
import numpy as np

N = 200003
M = 70001


def _r(seed):
    return np.random.RandomState(seed)


def table(pn):
    """name -> (function, exact).  pn is the pnumpy package."""
    t = {}

    def add(name, exact=True):
        def deco(f):
            t[name] = (f, exact)
            return f
        return deco

    def ints(dt, n=N, seed=1, lo=None, hi=None):
        i = np.iinfo(dt)
        return _r(seed).randint(i.min if lo is None else lo, i.max if hi is None else hi, n, dtype=dt)

    def fl(dt, n=N, seed=1):
        a = (_r(seed).standard_normal(n) * 10).astype(dt)
        a[::97] = np.nan
        a[::101] = np.inf
        a[::103] = -0.0
        return a

    for dt in ('int8', 'uint16', 'int32', 'uint64', 'int64'):
        a, b = ints(dt), ints(dt, seed=2)

        @add('bin_' + dt)
        def f(a=a, b=b):
            c = b | 1
            return [a + b, a - b, a * b, a // c, np.remainder(a, c), np.minimum(a, b), np.maximum(a, b), a / c,
                    a + a.dtype.type(3), a.dtype.type(3) - a, a & b, a ^ b, a | b]

        @add('cmp_' + dt)
        def f(a=a, b=b):
            return [a == b, a != b, a < b, a <= b, a > b, a >= b, a < a[5], a[7] >= b]

        @add('un_' + dt)
        def f(a=a):
            return [abs(a), ~a, np.negative(a), np.square(a), np.sign(a), a[::3] + a[::3], abs(a[::-1])]

        @add('red_' + dt)
        def f(a=a):
            return [np.array([a.sum(), a.min(), a.max(), np.bitwise_or.reduce(a), np.bitwise_xor.reduce(a)]),
                    np.multiply.reduce(a).reshape(1), np.cumsum(a), np.subtract.reduce(a).reshape(1)]

        @add('sort_' + dt)
        def f(a=a):
            return [np.sort(a), np.sort(a, kind='stable'), np.argsort(a, kind='stable'), pn.sort(a),
                    pn.argsort(a, kind='mergesort') if False else np.argsort(a[:M], kind='stable')]

    for dt in ('float32', 'float64'):
        a, b = fl(dt), fl(dt, seed=2)

        @add('bin_' + dt)
        def f(a=a, b=b):
            with np.errstate(all='ignore'):
                return [a + b, a - b, a * b, a / b, np.minimum(a, b), np.maximum(a, b), a[::2] + b[::2],
                        a // b, np.remainder(a, b)]

        @add('cmp_' + dt)
        def f(a=a, b=b):
            return [a == b, a != b, a < b, a <= b, a > b, a >= b]

        @add('un_' + dt)
        def f(a=a):
            with np.errstate(all='ignore'):
                return [abs(a), np.negative(a), np.square(a), np.sqrt(abs(a)), np.floor(a), np.ceil(a), np.trunc(a),
                        np.rint(a), np.isnan(a), np.isinf(a), np.isfinite(a), np.signbit(a)]

        @add('trig_' + dt, exact=False)
        def f(a=a):
            with np.errstate(all='ignore'):
                return [np.sin(a), np.cos(a), np.exp(a), np.log(abs(a)), np.tanh(a), np.arctan(a), np.log1p(abs(a)),
                        np.cbrt(a), np.exp2(a), np.expm1(a)]

        @add('red_' + dt, exact=False)
        def f(a=a):
            c = np.where(np.isfinite(a), a, a.dtype.type(1)) + a.dtype.type(20)
            return [np.array([c.sum(), c.min(), c.max(), a.min(), a.max(), c[::2].sum()]), c.reshape(-1, 47)[:, :].sum(axis=0) if c.size % 47 == 0 else c[:199985].reshape(-1, 5).sum(axis=0)]

        @add('sort_' + dt)
        def f(a=a):
            return [np.sort(a), np.argsort(a, kind='stable'), pn.sort(a), np.sort(a[:500])]

    a = ints('int32')
    msk = _r(5).rand(N) < 0.4
    idx = _r(6).randint(-N, N, N)

    @add('mask')
    def f():
        return [pn.getitem(a, msk), a[msk], a.astype('f8')[msk], a.astype('i1')[msk]]

    @add('fancy')
    def f():
        return [pn.getitem(a, idx), a[idx], a.astype('f8')[idx.astype('i4')], a.astype('i2')[idx]]

    s = np.array([b'x%d' % i for i in _r(7).randint(0, 1000, M)])
    u = s.astype('U')

    @add('lexsort')
    def f():
        return [pn.lexsort((a[:M], (a % 5)[:M])), pn.lexsort((s, (a % 3)[:M])), pn.lexsort((u,))]

    @add('sort_str')
    def f():
        return [np.sort(s), np.argsort(u, kind='stable'), pn.sort(s)]

    rec = np.zeros(N, dtype=[('a', 'i4'), ('b', 'f8'), ('c', 'S5'), ('d', 'i1')])
    rec['a'] = a
    rec['b'] = a / 3
    rec['c'] = (s.tolist() * 3)[:N]
    rec['d'] = a % 100

    @add('recarray')
    def f():
        d = pn.recarray_to_colmajor(rec)
        return [d[k] for k in sorted(d)]

    @add('arange')
    def f():
        return [np.arange(N), np.arange(N, dtype='f4'), np.arange(5, 5 + 3 * N, 3, dtype='i4'), np.arange(N, 0, -1, dtype='i8')]

    @add('bools')
    def f():
        return [np.logical_and(msk, msk[::-1]), np.logical_or(msk, msk[::-1]), ~msk, msk & msk[::-1],
                np.array([msk.any(), msk.all(), msk.sum()])]

    @add('inplace')
    def f():
        b = a.copy()
        b += 7
        b[::2] *= 3
        b[1:] += b[:-1]
        c = a.astype('f8')
        np.multiply(c, 2, out=c)
        np.add(c, c[::-1], out=c)
        return [b, c]

    @add('shift')
    def f():
        k = np.abs(a) % 40
        return [a << k, a >> k, np.left_shift(a.astype('i8'), k), np.right_shift(a.astype('u8'), k.astype('u8'))]

    @add('small')
    def f():
        x = np.arange(17, dtype='f8')
        y = np.arange(17, dtype='i2')
        return [x + x, y * y, y < 5, np.sort(y[::-1]), np.array([x.sum(), y.max()]), x[::2] - 1]
    return t


def same(x, y, exact):
    """x: computed, y: reference."""
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        p = np.asarray(p)
        if p.dtype != q.dtype or p.shape != q.shape:
            return False
        if exact:
            if p.dtype.kind == 'f':
                if not np.array_equal(p, q, equal_nan=True):
                    return False
            elif p.tobytes() != q.tobytes():
                return False
        else:
            eps = np.finfo(p.dtype).eps
            with np.errstate(all='ignore'):
                ok = (p == q) | (np.isnan(p) & np.isnan(q)) | (np.abs(p - q) <= 2000 * eps * np.abs(q)) | \
                    (np.isfinite(p) & (np.abs(p - q) <= 4 * eps))
            if not ok.all():
                return False
    return True
