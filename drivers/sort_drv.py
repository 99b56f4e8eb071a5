"""Sorts of the real module.  Every input is built from ranks (rank r is the r-th item of an increasing table, NaN last), so that the
right answer is known without sorting: sorted copies, in-place sorts, indirect sorts and lexsorts over dtypes, kinds, layouts, axes,
lengths and orders, the key patterns SortScen.tla enumerates laid over the eight pieces of the parallel sort, and records for
SortTrace.tla.  argument: what = sort | argsort | lexsort"""
import json, random, sys
import numpy as np
arg = json.load(open(sys.argv[1]))
np.seterr(all='ignore')
fails, counts = [], {}
_pf = open(sys.argv[2] + '.progress', 'w')


def progress(s):
    _pf.seek(0)
    _pf.write(s.ljust(600)[:600])
    _pf.flush()


def fail(what, **k):
    if len(fails) < 12:
        fails.append(dict(what=what, **k))
    counts['failed'] = counts.get('failed', 0) + 1


def tick(k, n=1):
    counts[k] = counts.get(k, 0) + n


rnd = random.Random(arg['seed'])
rng = np.random.default_rng(arg['seed'])
TYPES = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'f2', 'f4', 'f8', 'g', 'S1', 'S3', 'S8', 'S13', 'U1', 'U2', 'U5']
OTHER = ['>i4', '>f8', '>U3', '>i2', '>f4', '>u8', 'M8[s]', 'm8[ms]', 'c8', 'c16']
KINDS = ['quicksort', 'heapsort', 'mergesort', 'stable', None]


# ---------------------------------------------------------------- increasing tables, built before pnumpy is initialised
def table(t):
    """strictly increasing values of dtype t (native order); for floats NaN comes last and may look different each time"""
    d = np.dtype(t).newbyteorder('=')
    k = d.kind
    if k == 'b':                # false, true and other bytes, which are sorted as NumPy sorts them
        return [0, 1, 2, 64, 127, 128, 200, 255]
    if k in 'iu':
        ii = np.iinfo(d)
        v = {int(x) for x in np.frombuffer(np.random.default_rng(5).bytes(3000 * d.itemsize), dtype=d)}
        for c in (ii.min, ii.max, 0, ii.max // 2):
            v |= {c + e for e in (-2, -1, 0, 1, 2)}
        return sorted(x for x in v if ii.min <= x <= ii.max)
    if k == 'f':
        r = np.random.default_rng(6)
        v = (r.normal(size=1500) * np.exp2(r.integers(-60, 60, 1500).astype('f8') if d.itemsize > 2 else r.integers(-8, 8, 1500).astype('f8'))).astype(d)
        f = np.finfo(d)
        sp = [f.max, f.min, f.tiny, -f.tiny, 0, 1, -1, np.inf, -np.inf, np.nextafter(d.type(1), d.type(2)), np.nextafter(d.type(0), d.type(1))]
        v = np.concatenate([v, np.array(sp, dtype=d)])
        return sorted({x for x in v if x == x} | {d.type(0)}) + [d.type(np.nan)]
    if k in 'Mm':
        return [np.array(x, 'i8').view(d) for x in sorted({int(x) for x in rng.integers(-10 ** 6, 10 ** 6, 900)})] + [np.array(np.iinfo('i8').min).view(d)]
    if k == 'c':
        s = 'f4' if d.itemsize == 8 else 'f8'
        return sorted({complex(a, b) for a, b in rng.integers(-20, 20, (600, 2)).tolist()}, key=lambda z: (z.real, z.imag)) + [complex(float('nan'), float('nan'))]
    n = d.itemsize // (1 if k == 'S' else 4)
    al = [1, 2, 0x30, 0x31, 0x7f, 0x80, 0x81, 0xff] if k == 'S' else [1, 0x30, 0x31, 0x7f, 0x80, 0xff, 0x100, 0x0141, 0xffff, 0x10000, 0x10ffff]
    r2 = random.Random(7)
    v = {()}
    for q in range(400):
        m = r2.choice([n, n, r2.randint(1, n)])
        w = [r2.choice(al) for _ in range(m)]
        if q % 3 == 0:              # long common prefixes
            w = ([0x61] * n)[:max(0, m - 1)] + [r2.choice(al)]
        if q % 11 == 0 and m > 1:
            w[r2.randrange(m - 1)] = 0
        v.add(tuple(w))
    for c in al:
        v.add((c,))
    v = sorted(v)
    return [bytes(w) for w in v] if k == 'S' else [''.join(map(chr, w)) for w in v]


TAB = {}


def build(t):
    d = np.dtype(t).newbyteorder('=')
    key = d.str
    if key not in TAB:
        L = table(t)
        if d.kind == 'b':
            TAB[key] = np.array(L, 'u1').view(d)
            return TAB[key]
        a = np.empty(len(L), d)
        for i, x in enumerate(L):
            a[i] = x
        TAB[key] = a
    return TAB[key]


for _t in TYPES + OTHER:
    build(_t)
_f = {2: [0x7e00, 0xfe00, 0x7e01], 4: [0x7fc00000, 0xffc00000, 0x7fc00123], 8: [0x7ff8000000000000, 0xfff8000000000000, 0x7ff8000000000123]}
NANS = {s: np.array(v, dtype='u%d' % s).view('f%d' % s) for s, v in _f.items()}


def materialise(t, ranks, sub):
    """values of dtype t whose order is that of sub[ranks]"""
    tab = build(t)
    v = tab[sub[ranks]]
    d = v.dtype
    if d.kind == 'f' and d.itemsize in NANS:
        nan = np.flatnonzero(v != v)
        v[nan] = NANS[d.itemsize][rng.integers(0, 3, len(nan))]
        z = np.flatnonzero(v == 0)
        v[z] = np.where(rng.random(len(z)) < 0.5, d.type(0.0), d.type(-0.0))
    return v


def pick_sub(t, k):
    """k increasing positions of the table"""
    n = len(build(t))
    if t == '?' and rnd.random() < 0.5:
        n = 2
    k = min(k, n)
    s = set(rnd.sample(range(n), k))
    if rnd.random() < 0.7:
        s.add(n - 1)
        s.add(0)
    return np.array(sorted(s))


# ---------------------------------------------------------------- orders of the ranks
def killer(n):
    """a permutation quicksort's middle-of-three choice splits badly every time"""
    a = list(range(n))
    # build from the small end backwards, undoing the choice of the pivot
    for m in range(3, n + 1):
        lo, hi = n - m, n - 1
        mid = lo + ((hi - lo) >> 1)
        a[mid], a[lo + 1 if lo + 1 <= hi else lo] = a[lo + 1 if lo + 1 <= hi else lo], a[mid]
    return np.array(a)


def order(style, n, k):
    if n == 0:
        return np.zeros(0, 'i8')
    r = rng.integers(0, k, n)
    if style == 'random':
        return r
    s = np.arange(n) * k // max(1, n)
    if style == 'asc':
        return s
    if style == 'desc':
        return s[::-1].copy()
    if style == 'pipe':
        return np.concatenate([s[::2], s[::-2]])[:n].copy()
    if style == 'valley':
        return np.concatenate([s[::-2], s[::2]])[:n].copy()
    if style == 'saw':
        return (np.arange(n) % rnd.choice([2, 3, 7, 16, 17, 33, 1000])) * k // 1000 % k
    if style == 'swap':
        for _ in range(rnd.choice([1, 2, 5])):
            i, j = rnd.randrange(n), rnd.randrange(n)
            s[i], s[j] = s[j], s[i]
        return s
    if style == 'equal':
        return np.full(n, rnd.randrange(k))
    if style == 'onelow':
        s = np.full(n, k - 1)
        s[rnd.randrange(n)] = 0
        return s
    if style == 'last':
        s[-1] = 0
        return s
    if style == 'runs':
        out, c = [], 0
        while c < n:
            m = rnd.choice([1, 5, 16, 20, n // 8 + 1, n // 3 + 1])
            q = np.arange(m) * k // m
            out.append(q if rnd.random() < 0.5 else q[::-1])
            c += m
        return np.concatenate(out)[:n]
    if style == 'nanends':                 # many of the last rank at the ends of the eight pieces
        for e in range(1, 9):
            q = n * e // 8
            m = rnd.randint(0, max(1, n // 16))
            r[max(0, q - m):q] = k - 1
            if rnd.random() < 0.3:
                m = rnd.randint(0, max(1, n // 16))
                r[q:q + m] = k - 1
        return r
    if style == 'killer':
        m = min(n, 3000)
        q = killer(m)
        s[:m] = q * k // m
        return s
    if style == 'pieces':
        return pieces([rnd.randint(0, 2) for _ in range(8)], n, k)
    raise ValueError(style)


STYLES = ['random', 'random', 'random', 'asc', 'desc', 'pipe', 'valley', 'saw', 'swap', 'swap', 'equal', 'onelow', 'last', 'runs', 'runs', 'nanends', 'killer', 'pieces']


def cuts8(n):
    def cut(lo, hi, d):
        if d == 0:
            return [lo]
        m = lo + (hi - lo) // 2
        return cut(lo, m, d - 1) + cut(m, hi, d - 1)
    return cut(0, n, 3) + [n]


def pieces(keys, n, k):
    """piece p of the parallel sort holds ranks around keys[p] (0..2): constant, jittered inside its third, or overlapping the next"""
    c = cuts8(n)
    r = np.zeros(n, 'i8')
    jit = rnd.choice(['const', 'third', 'over', 'mix'])
    w = max(1, k // 3)
    for p in range(8):
        m = c[p + 1] - c[p]
        j = rnd.choice(['const', 'third', 'over']) if jit == 'mix' else jit
        base = keys[p] * (k - 1) // 2 if j == 'const' else keys[p] * w
        off = np.zeros(m, 'i8') if j == 'const' else rng.integers(0, w if j == 'third' else 2 * w, m)
        r[c[p]:c[p + 1]] = np.minimum(k - 1, base + off)
    return r


SMALL = list(range(0, 40)) + [47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500]
MID = [1000, 1023, 1025, 2048, 4095, 5000, 10007]
BIG = [65535, 65536, 65537, 65536 + 9, 70001, 81920 + 5, 100003, 131072, 131075, 200000 + 7]


def length(big):
    x = rnd.random()
    return rnd.choice(BIG) if x < big else rnd.choice(MID) if x < big + 0.15 else rnd.choice(SMALL)


# ---------------------------------------------------------------- layouts: an array inside a larger buffer
def place(v, layout, t):
    """-> (buffer, view): view has v's values; the rest of the buffer is noise"""
    d = np.dtype(t)
    it = d.itemsize
    n = len(v)
    if layout == 'unaligned':
        buf = np.frombuffer(bytearray(rng.bytes(n * it + 64)), 'u1')
        w = np.ndarray((n,), d, buf, 33 if it > 1 else 32)
    elif layout == 'strided':
        s = rnd.choice([2, 3])
        buf = np.frombuffer(bytearray(rng.bytes((n * s + 2) * it)), 'u1')
        w = np.ndarray((n,), d, buf, it, (s * it,))
    elif layout == 'reversed':
        buf = np.frombuffer(bytearray(rng.bytes((n + 2) * it)), 'u1')
        w = np.ndarray((n,), d, buf, it, (it,))[::-1]
    elif layout == 'odd' and it > 1:           # a field of packed records: the stride is no multiple of the item
        buf = np.frombuffer(bytearray(rng.bytes((n + 1) * (it + 1))), 'u1')
        w = np.ndarray((n,), d, buf, 1, (it + 1,))
    else:
        buf = np.frombuffer(bytearray(rng.bytes((n + 4) * it + 64)), 'u1')
        w = np.ndarray((n,), d, buf, 2 * it if (2 * it) % 16 == 0 or it <= 8 else 32)
    w[...] = v
    return buf, w


def eq(a, b):
    """same values (NaN like NaN)"""
    if a.dtype.kind in 'fc':
        return bool(np.all((a == b) | ((a != a) & (b != b)))) if a.shape == b.shape else False
    if a.dtype.kind in 'Mm':
        a, b = a.astype(a.dtype.newbyteorder('=')).view('i8'), b.astype(b.dtype.newbyteorder('=')).view('i8')
    if a.dtype.kind in 'biu':
        return a.shape == b.shape and a.astype(a.dtype.newbyteorder('=')).tobytes() == b.astype(b.dtype.newbyteorder('=')).tobytes()
    return a.shape == b.shape and bool(np.all(a == b))


def canon(v):
    """native bytes of every item, for exact comparison (none for long double: padding)"""
    v = np.ascontiguousarray(v.astype(v.dtype.newbyteorder('=')))
    if v.dtype.char == 'g':
        return None
    return v.view('V%d' % v.dtype.itemsize).tolist() if v.dtype.itemsize else []


def nonan(x, v):
    k = (v == v).tolist()
    return [e for e, g in zip(x, k) if g]


def plain(f):
    P.atop_disable()
    try:
        return f()
    finally:
        P.atop_enable()


def sorted_ranks(r):
    c = np.bincount(r) if len(r) else np.zeros(0, 'i8')
    return np.repeat(np.arange(len(c)), c)


def check_sorted(desc, t, v, ranks, got, stable, sub):
    """v: the input values with their ranks, got: the sorted result"""
    def f():
        want = build(t)[sub[sorted_ranks(ranks)]]
        if got.shape != want.shape:
            return 'shape %s' % (got.shape,)
        if not eq(got, want):
            bad = [i for i in range(len(want)) if not eq(got[i:i + 1], want[i:i + 1])]
            return 'position %d holds %r, not %r' % (bad[0], got[bad[0]], want[bad[0]]) if bad else 'differs'
        if len(v) <= 3000 and v.dtype.char != 'g':
            x, y = canon(v), canon(got)
            if stable:
                p = sorted(range(len(v)), key=ranks.tolist().__getitem__)
                if [x[i] for i in p] != y:
                    return 'equal items (zeros of both signs, NaNs) changed their order or bits'
            elif sorted(nonan(x, v)) != sorted(nonan(y, got)):       # (NumPy's own vectorised sorts rewrite NaNs)
                return 'the items are not those of the input'
        return ''
    e = plain(f)
    if e:
        fail('%s: %s' % (desc, e), case=desc)


def check_perm(desc, ranks, p, stable):
    def f():
        n = len(ranks)
        if p.shape != (n,):
            return 'shape %s' % (p.shape,)
        if n == 0:
            return ''
        if p.min() < 0 or p.max() >= n or np.bincount(p, minlength=n).max() != 1:
            return 'not a permutation'
        r = ranks[p]
        d = r[1:] - r[:-1]
        if (d < 0).any():
            i = int(np.flatnonzero(d < 0)[0])
            return 'items %d and %d (positions %d, %d of the result) are out of order' % (p[i], p[i + 1], i, i + 1)
        if stable and ((d == 0) & (p[1:] < p[:-1])).any():
            i = int(np.flatnonzero((d == 0) & (p[1:] < p[:-1]))[0])
            return 'equal items %d and %d changed their order' % (p[i], p[i + 1])
        return ''
    e = plain(f)
    if e:
        fail('%s: %s' % (desc, e), case=desc)


records = []
tf = None


def record(**k):
    global tf
    if arg.get('trace_file'):
        if tf is None:
            tf = open(arg['trace_file'], 'w')
        tf.write(json.dumps(k) + '\n')
        tick('records')


def rank_of(t, got, sub):
    """ranks of the items of got, -1 for an item that is not in the table"""
    def f():
        tab = build(t)[sub]
        if tab.dtype == bool:
            m = {x: i for i, x in enumerate(tab.tobytes())}
            return [m.get(x, -1) for x in got.tobytes()]
        out = []
        m = {}
        for i, x in enumerate(tab):
            m.setdefault('nan' if x != x else x, i)
        if got.dtype.kind in 'Mm':
            m = {x.item() if hasattr(x, 'item') else x: i for i, x in enumerate(tab.astype('i8'))}
            return [m.get(x, -1) for x in got.astype('i8').tolist()]
        for x in got:
            out.append(m.get('nan' if x != x else x, -1))
        return out
    return plain(f)


LAYOUTS = ['plain'] * 5 + ['unaligned', 'strided', 'reversed', 'odd']


def do_sort(t, v, ranks, sub, desc, want_record=False):
    layout = rnd.choice(LAYOUTS)
    kind = rnd.choice(KINDS)
    stable = kind in ('mergesort', 'stable')
    buf, a = place(v, layout, t)
    desc = 'sort %s %s n=%d %s %s' % (t, kind, len(v), layout, desc)
    form = rnd.choice(['inplace', 'inplace', 'inplace', 'np', 'np', 'pn', 'raw'])
    desc += ' ' + form
    progress(desc)
    before = buf.tobytes()
    if form == 'inplace':
        a.sort(kind=kind)
        got = a
        def f():
            b2 = np.frombuffer(bytearray(before), 'u1')
            w = np.ndarray(a.shape, a.dtype, b2, a.__array_interface__['data'][0] - buf.__array_interface__['data'][0] , a.strides) if a.size else None
            if w is None:
                return buf.tobytes() == before
            if a.dtype.char == 'g':
                w[...] = 0
                b3 = np.frombuffer(bytearray(buf.tobytes()), 'u1')
                np.ndarray(a.shape, a.dtype, b3, a.__array_interface__['data'][0] - buf.__array_interface__['data'][0], a.strides)[...] = 0
                m = np.ones(len(b3), bool)
                o = a.__array_interface__['data'][0] - buf.__array_interface__['data'][0]
                for k in range(len(a)):
                    m[o + k * a.strides[0]:o + k * a.strides[0] + 16] = False
                return bool((b2[m] == b3[m]).all())
            w[...] = a
            return b2.tobytes() == buf.tobytes()
        if not plain(f):
            fail('%s: memory outside the array changed' % desc, case=desc)
    else:
        try:
            got = {'np': np.sort, 'pn': pn.sort, 'raw': P.sort}[form](a, kind=kind)
        except (ValueError, TypeError) as e:
            if form != 'raw':
                fail('%s raises %r' % (desc, e), case=desc)
            got = None
        if buf.tobytes() != before:
            fail('%s: the input changed' % desc, case=desc)
        if got is None:
            tick('refused')
            return
        if got.dtype != a.dtype:
            fail('%s: dtype %s' % (desc, got.dtype), case=desc)
            return
    tick('sorts')
    check_sorted(desc, t, a if form != 'inplace' else v, ranks, got, stable, sub)
    if want_record:
        record(kind='sort', key=ranks.tolist(), out=rank_of(t, got, sub))


def do_argsort(t, v, ranks, sub, desc, want_record=False):
    layout = rnd.choice(LAYOUTS)
    kind = rnd.choice(KINDS + ['stable', 'mergesort', 'stable'])
    stable = kind in ('mergesort', 'stable')
    buf, a = place(v, layout, t)
    desc = 'argsort %s %s n=%d %s %s' % (t, kind, len(v), layout, desc)
    form = rnd.choice(['m', 'np', 'np', 'pn'])
    if rnd.random() < 0.1:
        a.setflags(write=False)
    progress(desc)
    before = buf.tobytes()
    p = a.argsort(kind=kind) if form == 'm' else (np if form == 'np' else pn).argsort(a, kind=kind)
    if buf.tobytes() != before:
        fail('%s: the input changed' % desc, case=desc)
    tick('argsorts')
    if p.dtype != np.intp:
        fail('%s: result of type %s' % (desc, p.dtype), case=desc)
    check_perm(desc, ranks, p, stable)
    if want_record:
        record(kind='argsort', key=ranks.tolist(), out=p.tolist(), stable=stable)


def one(t, n, style, k, want_record=False):
    sub = pick_sub(t, k)
    k = len(sub)
    ranks = order(style, n, k) if not isinstance(style, list) else pieces(style, n, k)
    ranks = np.clip(ranks, 0, k - 1)
    # equal table entries (zeros of both signs) cannot occur: the table is strictly increasing
    v = materialise(t, ranks, sub)
    desc = '%s k=%d' % (style if isinstance(style, str) else 'pieces%s' % ''.join(map(str, style)), k)
    (do_sort if arg['what'] == 'sort' else do_argsort)(t, v, ranks, sub, desc, want_record)


def several_dims():
    t = rnd.choice(TYPES + OTHER)
    kind = rnd.choice(KINDS)
    stable = kind in ('mergesort', 'stable')
    big = rnd.random() < 0.05
    nd = rnd.choice([2, 2, 3])
    shape = [rnd.choice([0, 1, 2, 3, 5, 17]) for _ in range(nd)]
    shape[rnd.randrange(nd)] = rnd.choice(BIG[:6]) if big else rnd.choice(SMALL)
    if int(np.prod(shape)) > 400000:
        return
    n = int(np.prod(shape))
    sub = pick_sub(t, rnd.choice([2, 3, 10, 100]))
    ranks = rng.integers(0, len(sub), n).reshape(shape)
    v = materialise(t, ranks.reshape(-1), sub).reshape(shape).astype(t)
    lay = rnd.choice(['C', 'F', 'T', 'step', 'rev'])
    if lay == 'F':
        v = np.asfortranarray(v)
    elif lay == 'T':
        v, ranks = v.T, ranks.T
    elif lay == 'step':
        v, ranks = v[::2], ranks[::2]
    elif lay == 'rev':
        v, ranks = v[..., ::-1], ranks[..., ::-1]
    axis = rnd.choice([None] + list(range(-nd, nd)))
    desc = '%s %s %s shape=%s %s axis=%s' % (arg['what'], t, kind, v.shape, lay, axis)
    progress(desc)
    before = v.copy()
    form = rnd.choice(['np', 'pn', 'inplace'])
    if arg['what'] == 'sort':
        if form == 'inplace' and axis is not None:
            got = v.copy(order='K')
            got.sort(axis=axis, kind=kind)
        else:
            got = (pn if form == 'pn' else np).sort(v, axis=axis, kind=kind)
    else:
        got = (pn if form == 'pn' else np).argsort(v, axis=axis, kind=kind)
    tick('arrays of several dimensions')
    if not plain(lambda: eq(v, before)):
        fail('%s: the input changed' % desc, case=desc)
    if axis is None:
        if arg['what'] == 'sort':
            check_sorted(desc, t, np.ravel(v), ranks.ravel(), got, stable, sub)
        else:
            check_perm(desc, ranks.ravel(), got, stable)
        return
    if got.shape != v.shape:
        fail('%s: shape %s' % (desc, got.shape), case=desc)
        return
    m, r, g = np.moveaxis(v, axis, -1), np.moveaxis(ranks, axis, -1), np.moveaxis(got, axis, -1)
    lanes = list(np.ndindex(*m.shape[:-1]))
    for ix in rnd.sample(lanes, min(len(lanes), 40)):
        if arg['what'] == 'sort':
            check_sorted(desc + ' lane %s' % (ix,), t, m[ix], r[ix], g[ix], stable, sub)
        else:
            check_perm(desc + ' lane %s' % (ix,), r[ix], g[ix], stable)


def derived():
    """functions of NumPy built on sorting"""
    t = rnd.choice(TYPES)
    n = length(0.05)
    sub = pick_sub(t, rnd.choice([2, 5, 50])) if t != '?' else np.array([0, 1])
    ranks = rng.integers(0, len(sub), n)
    v = materialise(t, ranks, sub)
    if v.dtype.kind == 'f':        # unique() counts NaNs and zeros its own way
        keep = v == v
        v, ranks = v[keep], ranks[keep]
    desc = 'unique %s n=%d' % (t, len(v))
    progress(desc)
    u, ix, inv, c = np.unique(v, return_index=True, return_inverse=True, return_counts=True)
    def f():
        rl = ranks.tolist()
        us = sorted(set(rl))
        first, cnt = {}, {}
        for i, x in enumerate(rl):
            first.setdefault(x, i)
            cnt[x] = cnt.get(x, 0) + 1
        pos = {x: i for i, x in enumerate(us)}
        return (eq(u, build(t)[sub[np.array(us, 'i8')]] if us else build(t)[:0]), ix.tolist() == [first[x] for x in us],
                inv.reshape(-1).tolist() == [pos[x] for x in rl], c.tolist() == [cnt[x] for x in us])
    e = plain(f)
    tick('unique')
    if not all(e):
        fail('%s: %s' % (desc, e), case=desc)
    # records sorted by chosen fields
    m = rnd.choice([0, 1, 5, 40, 300])
    a = np.zeros(m, [('x', 'i2'), ('y', 'f8'), ('s', 'S3'), ('pos', 'i4')])
    a['x'], a['y'], a['s'], a['pos'] = rng.integers(-2, 2, m), rng.integers(0, 3, m), rng.integers(0, 3, m).astype('S3'), np.arange(m)
    by = rnd.sample(['x', 'y', 's'], rnd.randint(1, 3)) + ['pos']
    want = sorted(range(m), key=lambda i: tuple(a[f][i] for f in by))
    keep = a.copy()
    if arg['what'] == 'sort':
        got = pn.sort(a, order=by)['pos'].tolist()
    else:
        got = pn.argsort(a, order=by).tolist()
    tick('records by field')
    if got != want or keep.tobytes() != a.tobytes():
        fail('%s of records by %s: %s' % (arg['what'], by, got[:20]), case=str(by))


# ---------------------------------------------------------------- lexsort
LT = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8', 'g', 'S1', 'S3', 'S8', 'U1', 'U2', 'U5']


def lex(pattern=None, n=None, small=False):
    if n is None:
        n = length(0.08)
    nk = rnd.choice([1, 2, 2, 3, 4])
    cols, rk = [], []
    other = rnd.random() < 0.08
    for c in range(nk):
        t = rnd.choice(LT + (['f2', '>i4', '>f8'] if other else []))
        sub = pick_sub(t, rnd.choice([1, 2, 2, 3, 5, 200 if not small else 4]))
        r = pieces(pattern, n, len(sub)) if pattern and rnd.random() < 0.7 else order(rnd.choice(STYLES), n, len(sub))
        r = np.clip(r, 0, len(sub) - 1)
        v = materialise(t, r, sub).astype(t)
        lay = rnd.choice(['plain', 'plain', 'plain', 'strided', 'reversed', 'unaligned'])
        buf, w = place(v, lay, t)
        cols.append((buf, w, t + ' ' + lay))
        rk.append(r)
    keys = [w for _, w, _ in cols]
    before = [b.tobytes() for b, _, _ in cols]
    desc = 'lexsort n=%d %s' % (n, [d for _, _, d in cols])
    rl = [r.tolist() for r in rk]
    want = list(range(n))
    for r in rl:
        want.sort(key=r.__getitem__)
    res = {}
    for name, f in (('pn(list)', lambda: pn.lexsort(keys)), ('pn(tuple)', lambda: pn.lexsort(tuple(keys))), ('pn(*)', lambda: pn.lexsort(*keys)),
                    ('32(list)', lambda: P.lexsort32(keys)), ('64(list)', lambda: P.lexsort64(keys)), ('32(*)', lambda: P.lexsort32(*keys)), ('64(*)', lambda: P.lexsort64(*keys))):
        if n > 20000 and rnd.random() < 0.6:
            continue
        if name == 'pn(*)' and (other or nk > 1 and n > 20000):
            continue
        progress(desc + ' ' + name)
        try:
            res[name] = f()
        except (ValueError, TypeError) as e:
            if name in ('pn(list)', 'pn(tuple)') or not other:
                fail('%s %s raises %r' % (desc, name, e), case=desc)
            tick('refused')
            continue
        tick('lexsorts')
        got = res[name]
        if got is None or got.shape != (n,) or got.tolist() != want:
            g = [] if got is None else got.tolist()
            bad = [i for i in range(min(len(g), n)) if g[i] != want[i]]
            fail('%s %s: position %s holds %s, not %s' % (desc, name, bad[:1], [g[i] for i in bad[:3]], [want[i] for i in bad[:3]]), case=desc)
        elif name[:2] in ('32', '64') and got.dtype != np.dtype('i4' if name[:2] == '32' else 'i8'):
            fail('%s %s: type %s' % (desc, name, got.dtype), case=desc)
    if any(b.tobytes() != x for (b, _, _), x in zip(cols, before)):
        fail('%s: a key changed' % desc, case=desc)
    if small and '32(list)' in res and n:
        record(kind='lexsort', keys=rl, out=res['32(list)'].tolist())
        record(kind='lexsort', keys=rl, out=res['64(list)'].tolist())
    if other:
        return
    # partitions and start orders
    ck = [np.ascontiguousarray(k) for k in keys]
    x = rnd.random()
    if x < 0.35 and n:
        cuts = sorted({rnd.randint(1, n) for _ in range(rnd.choice([1, 2, 5, 17]))} | {n})
        w = []
        s = 0
        for e in cuts:
            q = list(range(s, e))
            for r in rl:
                q.sort(key=r.__getitem__)
            w += [i - s for i in q]
            s = e
        f = rnd.choice([P.lexsort32, P.lexsort64])
        progress(desc + ' cutoffs')
        g = f(ck, cutoffs=np.array(cuts, 'i8'))
        tick('partitioned lexsorts')
        if g.tolist() != w:
            fail('%s cutoffs=%s: wrong' % (desc, cuts[:10]), case=desc)
        if small:
            record(kind='parts', keys=rl, cuts=cuts, out=g.tolist())
    elif x < 0.6 and n:
        m = rnd.randint(1, n)
        st = rng.permutation(n)[:m]
        w = st.tolist()
        for r in rl:
            w.sort(key=r.__getitem__)
        bits = rnd.choice([32, 64])
        ix = st.astype('i%d' % (bits // 8))
        progress(desc + ' index')
        g = (P.lexsort32 if bits == 32 else P.lexsort64)(ck, index=ix)
        tick('lexsorts from a start order')
        if g.tolist() != w:
            fail('%s index of %d: wrong' % (desc, m), case=desc)
        if small and m <= 60:
            record(kind='start', keys=rl, start=st.tolist(), out=g.tolist())


def lex_errors():
    k = rng.integers(0, 3, (rnd.choice([1, 2, 3]), rnd.choice([1, 4, 30])))
    for bad in ([np.arange(3), np.arange(4)], [np.array([1, 'a', None], object)] * 2, [np.array([1 + 2j, 3])], k, k.tolist(), tuple(map(tuple, k)), list(k), [k],
                np.asfortranarray(k), k[:, ::-1], [k[0].tolist(), k[-1]], [np.float64(3)], [np.zeros((2, 3))], [np.array([])], [np.array(5)], [], (), [None], None, 3, 'abc',
                [k[0].astype('M8[s]'), k[-1]], [k[0], k[-1].astype('>i4')]):
        try:
            want = np.lexsort(bad)
        except Exception:
            want = None
        progress('lexsort(%r)' % (bad,))
        try:
            got = pn.lexsort(bad)
        except Exception:
            got = None
        if (want is None) != (got is None) or (want is not None and want.tolist() != got.tolist()):
            fail('lexsort of %r gives %r, NumPy %r' % (bad, got, want), case='errors')
        for f in (P.lexsort32, P.lexsort64):
            try:
                got = f(bad)
            except Exception:
                got = None
            if got is not None and (want is None or got.tolist() != want.tolist()):
                fail('%s of %r gives %r' % (f.__name__, bad, got), case='errors')
        tick('unusual arguments')


import pnumpy as pn
import pnumpy._pnumpy as P
pn.initialize()
if arg.get('workers') is not None:
    P.thread_setworkers(arg['workers'])
if not arg.get('threads', True):
    P.thread_disable()

for k in range(arg.get('records', 0)):
    if arg['what'] == 'lexsort':
        lex(n=rnd.choice([1, 2, 3, 5, 8, 17, 20, 33, 40, 64]), small=True)
    else:
        one(rnd.choice(TYPES + OTHER), rnd.choice(SMALL[1:]), rnd.choice(STYLES), rnd.choice([2, 3, 5, 10]), True)
for k in range(arg.get('big_records', 0)):
    if arg['what'] != 'lexsort':
        one(rnd.choice(TYPES), 65536 + rnd.randint(0, 40), rnd.choice(STYLES), rnd.choice([2, 3, 8]), True)
for s in arg.get('patterns', []):
    if arg['what'] == 'lexsort':
        lex(s, rnd.choice(BIG[1:5]))
    else:
        one(rnd.choice(TYPES), rnd.choice(BIG[1:6]), s, rnd.choice([3, 3, 30, 500]))
    tick('patterns')
for k in range(arg.get('cases', 0)):
    if arg['what'] == 'lexsort':
        lex()
        if k % 50 == 0:
            lex_errors()
        continue
    t = rnd.choice(TYPES * 2 + OTHER)
    one(t, length(0.06), rnd.choice(STYLES), rnd.choice([1, 2, 3, 10, 100, 5000]))
    if k % 6 == 0:
        several_dims()
    if k % 12 == 0:
        derived()
if tf:
    tf.close()
json.dump({'fails': fails, 'counts': counts}, open(sys.argv[2], 'w'))
