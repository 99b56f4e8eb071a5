"""Indexing of the real module.  Items are rows of random bytes, so the right answer is a choice of rows of a byte matrix, made
without any of the code under test.  Values, masks and indexes lie between unreadable pages, often flush with them.
argument: what = mask | gather; masks: scaled-up masks from BoolIndex.tla; table: rows of GatherTable.tla"""
import json, random, sys
import numpy as np
from arena import Arena
arg = json.load(open(sys.argv[1]))
np.seterr(all='ignore')
fails, counts = [], {}
_pf = open(sys.argv[2] + '.progress', 'w')


def progress(s):
    _pf.seek(0)
    _pf.write(s.ljust(600)[:600])
    _pf.flush()


def fail(what, **k):
    if len(fails) < 12:
        fails.append(dict(what=what, **k))
    counts['failed'] = counts.get('failed', 0) + 1


def tick(k, n=1):
    counts[k] = counts.get(k, 0) + n


rnd = random.Random(arg['seed'])
rng = np.random.default_rng(arg['seed'])
import pnumpy as pn
import pnumpy._pnumpy as raw
pn.initialize() if hasattr(pn, 'initialize') else None
if arg.get('workers') is not None:
    raw.thread_setworkers(arg['workers'])
raw.thread_enable() if arg.get('threads', True) else raw.thread_disable()
trace = open(arg['trace_file'], 'w')
BY = {1: ['i1', 'u1', '?', 'S1', 'V1'], 2: ['i2', 'u2', 'f2', 'S2', '>i2'], 3: ['S3', 'V3'], 4: ['i4', 'u4', 'f4', 'U1', '>f4', 'S4'], 5: ['S5', 'i4,i1'], 6: ['S6'],
      7: ['V7'], 8: ['i8', 'u8', 'f8', 'M8[s]', 'm8[ns]', 'c8', 'U2', 'q', 'Q', '>i8', 'V8'], 9: ['S9'], 10: ['f8,i2'], 11: ['S11'], 12: ['U3', 'i4,f8'], 13: ['S13'],
      15: ['S15'], 16: ['c16', 'g', 'U4', 'V16', 'S16'], 17: ['S17'], 20: ['U5'], 23: ['V23'], 24: ['i8,f8,i8', 'S24'], 25: ['S25'], 31: ['S31'], 32: ['c16,c16', 'U8', 'G'],
      33: ['S33'], 40: ['U10'], 64: ['S64'], 65: ['S65']}
FIRST = 0x10203040
COMMON = [1, 1, 2, 2, 4, 4, 8, 8, 8, 16]
VA, MA = Arena(40 << 20), Arena(8 << 20)


def place(arena, d, B, layout, flush, junk):
    """the rows of the byte matrix B as an array of dtype d; layout: gap in bytes between items and direction"""
    n, k = B.shape
    gap, back, off = layout
    st = k + gap
    span = max(0, (n - 1) * st + k) if n else 0
    lo = (arena.size - span - off) if flush == 'end' else off
    if n and gap:
        arena.buf[lo:lo + span] = junk
    if n:
        w = np.ndarray((n, k), 'u1', arena.buf, lo, (st, 1))
        w[...] = B[::-1] if back else B
        return np.ndarray((n,), d, arena.buf, lo + (n - 1) * st if back else lo, (-st if back else st,))
    return np.ndarray((0,), d, arena.buf, lo if lo < arena.size else arena.size - 64, (st,)) if n == 0 and arena.size - 64 >= lo else np.empty(0, d)


def layout(k, plain=0.5):
    if rnd.random() < plain:
        return (0, False, 0)
    return (rnd.choice([0, 0, k, 2 * k, 1, 3, 7]), rnd.random() < 0.4, rnd.choice([0, 0, 1, 3, 5, 32]))


def sizes():
    return rnd.choice(COMMON) if rnd.random() < 0.6 else rnd.choice(sorted(BY))


def matrix(n, k):
    B = rng.integers(0, 256, (n, k), dtype='u1')
    if k >= 4:                      # row number, to recover which row was returned
        B[:, :4] = (np.arange(n, dtype='<u4') + np.uint32(FIRST)).view('u1').reshape(n, 4)
    return B


def bytesof(r, k):
    return np.frombuffer(r.tobytes(), 'u1').reshape(-1, k) if r.size else np.zeros((0, k), 'u1')


def result(r, d, what, n, k, exp, detail):
    """r must be a fresh contiguous array of dtype d with the bytes exp"""
    tick(what)
    if type(r) is not np.ndarray or r.dtype != d or r.shape != (len(exp),) or not r.flags.c_contiguous or not r.flags.writeable:
        return fail('%s: result is %s %s shape %s, expected %s rows of %s' % (what, type(r).__name__, r.dtype, r.shape, len(exp), d), **detail)
    if np.shares_memory(r, VA.buf) or np.shares_memory(r, MA.buf):
        return fail('%s: the result is not a copy' % what, **detail)
    got = bytesof(r, k)
    if not np.array_equal(got, exp):
        b = int(np.flatnonzero((got != exp).any(axis=1))[0])
        fail('%s: row %d of %d is %s, expected %s (%s)' % (what, b, len(exp), got[b].tolist()[:16], exp[b].tolist()[:16], detail), row=b, **detail)


# ------------------------------------------------------------------------------------------------ masks
LENS = [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 8159, 8160, 8161, 8192, 8193 + 31, 16320, 16352, 16383, 16384, 16385, 32767, 32768, 32769, 49152,
        65535, 65536, 65537, 65536 + 7, 65536 + 16383, 81920, 81921, 98304 - 1, 131072, 131072 + 5, 16384 * 9 + 8161, 16384 * 13 + 3]


def make_mask(n, style):
    m = np.zeros(n, bool)
    if n == 0:
        return m
    if style == 'full':
        m[:] = True
    elif style == 'one':
        m[rnd.choice([0, n - 1, min(n - 1, 16384), max(0, min(n - 1, 16383)), rnd.randrange(n)])] = True
    elif style == 'hole':
        m[:] = True
        m[rnd.choice([0, n - 1, min(n - 1, 16384), max(0, min(n - 1, 8159)), rnd.randrange(n)])] = False
    elif style == 'words':              # every pattern of eight mask bytes
        w = np.arange(n // 8 + 1)
        rng.shuffle(w)
        m[:] = ((w[:, None] >> np.arange(8)) & 1).astype(bool).reshape(-1)[:n]
    elif style == 'runs':
        p = 0
        v = rnd.random() < 0.5
        while p < n:
            q = p + rnd.choice([1, 3, 7, 8, 9, 31, 32, 64, 255, 8160, 16384, rnd.randint(1, 20000)])
            m[p:q] = v
            v = not v
            p = q
    elif style == 'chunks':
        for c in range(0, n, 16384):
            s = rnd.randrange(5)
            if s == 1:
                m[c:c + 16384] = True
            elif s == 2:
                m[c] = True
            elif s == 3:
                m[min(n, c + 16384) - 1] = True
            elif s == 4:
                m[c:c + 16384] = rng.random(len(m[c:c + 16384])) < 0.5
    elif style == 'lanes':              # the same place of every 32 bytes, so that one counter gets everything
        m[rnd.randrange(32)::32] = True
        if rnd.random() < 0.5:
            m[rnd.randrange(32)::32] = True
    elif style == 'tail':
        m[max(0, n - rnd.randint(1, 40)):] = True
    else:
        m[:] = rng.random(n) < rnd.choice([0.001, 0.03, 0.3, 0.5, 0.9, 0.999])
    return m


STYLES = ['none', 'full', 'one', 'hole', 'words', 'runs', 'runs', 'chunks', 'chunks', 'lanes', 'tail', 'random', 'random']


def do_mask(m, k, d, lv, lm, style, hook):
    n = len(m)
    B = matrix(n, k)
    a = place(VA, d, B, lv, rnd.choice(['end', 'start']), 0xEE)
    mb = m.view('u1')
    if rnd.random() < 0.25:         # any byte but 0 is true
        mb = np.where(m, rng.integers(1, 256, n), 0).astype('u1')
    mm = place(MA, np.dtype(bool), mb.reshape(n, 1), lm, rnd.choice(['end', 'start']), 1)
    det = dict(n=n, dtype=str(d), itemsize=k, values_layout=lv, mask_layout=lm, style=style, hook=hook, trues=int(m.sum()))
    progress(json.dumps(det))
    if rnd.random() < 0.3:
        a.flags.writeable = False
        mm.flags.writeable = False
    shape = None
    if n and rnd.random() < 0.1 and lv[:2] == (0, False) and lm[:2] == (0, False):
        for q in (2, 3, 7):
            if n % q == 0:
                shape = (q, n // q)
        if shape:
            a, mm = a.reshape(shape), mm.reshape(shape)
    if hook:
        raw.hook_enable()
    try:
        r = a[mm] if hook else pn.getitem(a, mm)
    finally:
        raw.hook_disable()
    rows = np.flatnonzero(m)
    result(r, d, 'masks' if not hook else 'masks (hook)', n, k, np.take(B, rows, axis=0), det)
    if a.size and (mm.tobytes() != mb.tobytes() or not np.array_equal(bytesof(a, k), B)):
        fail('masks: an operand was modified', **det)
    return r, B


def records(count):
    for _ in range(count):
        n = rnd.choice([0, 1, 7, 8, 9, 16, 33, 70, 200, 260])
        k = rnd.choice([4, 8, 8, 16, 5, 7, 12, 33])
        d = np.dtype(rnd.choice(BY[k]))
        m = make_mask(n, rnd.choice(STYLES))
        r, B = do_mask(m, k, d, layout(k), layout(1), 'record', rnd.random() < 0.3)
        got = bytesof(r, k)
        rows = (np.ascontiguousarray(got[:, :4]).view('<u4').reshape(-1).astype('i8') - FIRST).tolist() if len(got) else []
        rows = [x if 0 <= x < n and B[x].tobytes() == got[i].tobytes() else -2 for i, x in enumerate(rows)]
        trace.write(json.dumps(dict(kind='mask', mask=m.astype(int).tolist(), rows=rows)) + '\n')
        tick('traces')


def outcome(f):
    try:
        r = f()
    except Exception as e:
        return ('error', type(e).__name__)
    if r is np.ma.masked:
        return ('masked',)
    if isinstance(r, np.ndarray):
        return ('array', type(r).__name__, str(r.dtype), r.shape, r.tobytes() if r.dtype.kind != 'O' else repr(r.tolist()), bool(np.ma.isMaskedArray(r)) and np.ma.getmaskarray(r).tobytes())
    return ('value', type(r).__name__, repr(r))


class Sub(np.ndarray):
    pass


def arrays():
    s = np.arange(12)
    rec = np.zeros(6, 'i4,f8')
    rec['f0'] = range(6)
    return {'1d': s, '1d6': np.arange(6.0), '2d': s.reshape(3, 4), 'F': np.asfortranarray(s.reshape(3, 4)), '0d': np.array(5), 'e': s[:0], 'n1': np.arange(3).reshape(3, 1), '1n': np.arange(3).reshape(1, 3),
            'T': s.reshape(3, 4).T, 'str': s[::2], 'obj': np.array([1, 'a', None, (1, 2), 5.5, []], object), 'sub': s.view(Sub), 'rec': rec, 'recarray': rec.view(np.recarray), 'mat': np.matrix(s.reshape(3, 4)),
            'ma': np.ma.array(np.arange(6), mask=[0, 1, 0, 0, 1, 0]), 'S': np.array(['a', 'bcd', 'e', '', 'ff', 'g'], 'S3'), 'U': np.array(['a', 'bcd', 'e', '', 'ff', 'g']), 'bool': np.arange(6) % 2 == 0,
            'swap': np.arange(6).astype('>i4'), 'half': np.arange(6).astype('f2'), '3d': np.arange(24).reshape(2, 3, 4), 'bc': np.broadcast_to(np.float64(3), (6,)), 'sw': np.lib.stride_tricks.sliding_window_view(s, 4)}


def indices():
    ev = np.arange(12) % 2 == 0
    e6 = np.arange(6) % 3 == 0
    o = {'m12': ev, 'm6': e6, 'm34': ev.reshape(3, 4), 'm43': ev.reshape(4, 3), 'mF': np.asfortranarray(ev.reshape(3, 4)), 'm3': e6[:3], 'm0': e6[:0], 'm0d': np.array(True), 'm0df': np.array(False), 'mT': ev.reshape(4, 3).T,
         'mstr': np.repeat(e6, 2)[::2], 'mrev': e6[::-1], 'msub': e6.view(Sub), 'mlist': e6.tolist(), 'mma': np.ma.array(e6, mask=~e6), 'm31': e6[:3].reshape(3, 1), 'm13': e6[:3].reshape(1, 3), 'm7': np.ones(7, bool), 'true': True, 'np.true': np.True_,
         'msw': np.lib.stride_tricks.sliding_window_view(ev, 4), 'tuplem': (e6,), 'mcol': (slice(None), np.array([True, False, True, False])), 'mobj': e6.astype(object), 'int': 2, 'np.int': np.int8(-1), 'big': 1000, 'slice': slice(1, 5, 2), 'rslice': slice(None, None, -1), 'ell': Ellipsis, 'none': None, 'tuple': (1, 2),
         'field': 'f0', 'fields': ['f0', 'f1'], 'list': [0, 2, 1], 'elist': [], 'float': 1.5, 'str': 'zz'}
    for t in ('i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', '>i4', 'f4', 'g', 'c8', 'O', 'M8[s]', 'S1'):
        o['idx ' + t] = np.array([2, 0, 1]).astype(t)
    o.update({'neg': np.array([-1, -2, 0]), 'oor': np.array([0, 12]), 'low': np.array([-13]), 'i2d': np.array([[0, 1], [2, 0]]), 'iF': np.asfortranarray(np.array([[0, 1], [2, 0]])), 'i0d': np.array(1), 'ie': np.array([], int), 'isub': np.array([1, 0]).view(Sub), 'istr': np.array([0, 9, 1, 9, 2, 9])[::2],
              'isw': np.lib.stride_tricks.sliding_window_view(np.arange(3), 2), 'umax': np.array([2 ** 64 - 1], 'u8'), 'pair': (np.array([0, 1]), np.array([1, 2])), 'rows': (np.array([0, 1]), slice(None))})
    return o


def hook_battery(which):
    A, I = arrays(), indices()
    ref = {(x, y): outcome(lambda: A[x][I[y]]) for x in A for y in I}
    raw.hook_enable()
    try:
        for (x, y), e in ref.items():
            if which and not (y.startswith('m') or 'm' in y) and rnd.random() < 0.5:
                continue
            progress('hook %s[%s]' % (x, y))
            g = outcome(lambda: A[x][I[y]])
            tick('index expressions with the hook')
            if g != e:
                fail('with the hook enabled, %s[%s] gives %s instead of %s' % (x, y, str(g)[:120], str(e)[:120]))
    finally:
        raw.hook_disable()
    for (x, y), e in list(ref.items())[::7]:
        g = outcome(lambda: A[x][I[y]])
        if g != e:
            fail('after hook_disable, %s[%s] gives %s instead of %s' % (x, y, str(g)[:120], str(e)[:120]))


def direct_battery(what):
    """getitem with all sorts of arguments: numpy's rows or an error"""
    A, I = arrays(), indices()
    for x in A:
        for y in I:
            ismask = getattr(I[y], 'dtype', None) == bool
            if ismask != (what == 'mask') and isinstance(I[y], np.ndarray):
                continue
            if what == 'gather' and (A[x].ndim != 1 or y == 'umax' or y == 'i0d' and x in ('ma', 'swap')):
                continue
            progress('getitem(%s, %s)' % (x, y))
            try:
                r = pn.getitem(A[x], I[y])
            except Exception as e:
                tick('arguments rejected')
                if type(e) in (SystemError, MemoryError):
                    fail('getitem(%s, %s) raises %s: %s' % (x, y, type(e).__name__, e))
                continue
            tick('arguments accepted')
            try:
                want = np.asarray(np.ma.getdata(A[x][I[y]]))
                if A[x].dtype.kind == 'O':
                    raise ValueError
            except IndexError:
                if what == 'gather' and isinstance(I[y], np.ndarray) and I[y].dtype.kind in 'iu':
                    continue                # out of range: a default
                fail('getitem(%s, %s) returns %s where numpy raises' % (x, y, repr(r)[:100]))
                continue
            want = want.reshape(-1) if what == 'gather' or isinstance(A[x], np.matrix) else want
            if r.shape != want.shape or r.dtype != want.dtype or r.tobytes() != want.tobytes():
                fail('getitem(%s, %s) returns %s instead of %s' % (x, y, repr(r)[:100], repr(want)[:100]))
    for a in ((), (A['1d'],), (A['1d'], I['m12'], 1, 2), (None, I['m12']), (A['1d'].tolist(), I['m12']), (A['1d'], None), (5, 6)):
        progress('getitem%r' % (a,))
        try:
            r = pn.getitem(*a)
            fail('getitem with %d unusable arguments returns %s' % (len(a), repr(r)[:80]))
        except (TypeError, ValueError):
            tick('arguments rejected')
        except Exception as e:
            fail('getitem with unusable arguments raises %s' % type(e).__name__)


if arg['what'] == 'mask':
    for _ in range(arg['cases']):
        k = sizes()
        n = rnd.choice(LENS) if rnd.random() < 0.75 else rnd.randint(0, 70000)
        if k > 33 and n > 100000:
            n = 70001
        style = rnd.choice(STYLES)
        do_mask(make_mask(n, style), k, np.dtype(rnd.choice(BY[k])), layout(k), layout(1), style, rnd.random() < 0.3)
    for pat, rows in arg.get('masks', []):
        s = rnd.choice([1, 3, 8, 5, 32, 4096, 8192, 8192, 10923])
        k = sizes()
        m = np.repeat(np.array(pat, bool), s)
        if list(np.flatnonzero(pat)) != rows:
            fail('the specification and numpy disagree about a mask')
        do_mask(m, k, np.dtype(rnd.choice(BY[k])), layout(k), layout(1), 'model x%d' % s, rnd.random() < 0.3)
        tick('model masks')
    records(arg['records'])
    hook_battery(True)
    direct_battery('mask')


# ------------------------------------------------------------------------------------------------ integer indexes
ITYPES = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'l', 'L', 'i', 'I']
SPECIAL = sorted({s * (2 ** b) + e for b in (7, 8, 15, 16, 31, 32, 33, 62, 63, 64) for s in (1, -1) for e in (-1, 0, 1)})


def pick_row(signed, x, n):
    if signed and x < 0:
        return x + n if x >= -n else -1
    return x if x < n else -1


DEF = {}


def do_gather(idx, it, n, k, d, lv, li, rows, note):
    """idx: python ints of dtype it; rows: expected rows, -1 where out of range"""
    B = matrix(n, k)
    a = place(VA, d, B, lv, rnd.choice(['end', 'start']), 0xEE)
    I = np.array(idx, it)
    ix = place(MA, I.dtype, I.view('u1').reshape(len(I), I.itemsize), li, rnd.choice(['end', 'start']), rnd.choice([0, 1, 0xFF]))
    det = dict(n=n, m=len(idx), dtype=str(d), itemsize=k, index=it, values_layout=lv, index_layout=li, note=note)
    progress(json.dumps(det))
    rows = np.array(rows, 'i8')
    default, extra = None, ()
    if d.kind in 'iuf' and rnd.random() < 0.3:
        extra = (rnd.choice([0, 1, 7, 100]),)
    elif d.kind in 'SU' and rnd.random() < 0.3:
        extra = (rnd.choice(['', 'x', 'defau'[:k // (4 if d.kind == 'U' else 1)]]),)
        if d.kind == 'S':
            extra = (extra[0].encode(),)
    elif rnd.random() < 0.1:
        extra = (None,)
    r = pn.getitem(a, ix, *extra)
    exp = np.take(B, np.where(rows < 0, 0, rows), axis=0) if n else np.zeros((len(rows), k), 'u1')
    if (rows < 0).any() and isinstance(r, np.ndarray) and r.dtype == d and len(r) == len(rows):
        if extra and extra[0] is not None:
            dflt = np.frombuffer(np.array([extra[0]], d).tobytes(), 'u1')
        else:
            if str(d) not in DEF:
                DEF[str(d)] = np.frombuffer(pn.getitem(np.empty(0, d), np.zeros(1, 'i8')).tobytes(), 'u1').copy()
            dflt = DEF[str(d)]
        exp[rows < 0] = dflt
        if d.char in 'gG':              # padding of the invalid value
            pad = np.arange(k) % 16 >= 10
            exp[np.ix_(rows < 0, pad)] = bytesof(r, k)[np.ix_(rows < 0, pad)]
    result(r, d, 'gathers', n, k, exp, det)
    if not np.array_equal(ix, I) or (n and not np.array_equal(bytesof(a, k), B)):
        fail('gathers: an operand was modified', **det)
    if note == 'hook' or rnd.random() < 0.25:
        def sub():
            try:
                return a[ix]
            except IndexError:
                return None
        w = sub()
        raw.hook_enable()
        try:
            h = sub()
        finally:
            raw.hook_disable()
        tick('gathers (hook)')
        if (h is None) != (w is None):
            fail('with the hook enabled an index %s accepted' % ('out of range is' if h is not None else 'in range is not'), **det)
        elif h is not None:             # numpy takes an unsigned index beyond 2^63 as negative
            result(h, d, 'gathers (hook)', n, k, exp if not (rows < 0).any() else bytesof(w, k), det)
    return r, B


def indices_for(it, n, m):
    ii = np.iinfo(it)
    sp = [x for x in [0, 1, n - 1, n, n + 1, -1, -2, -n, -n - 1, -n + 1, n // 2, ii.min, ii.max, ii.min + 1, ii.max - 1] + SPECIAL if ii.min <= x <= ii.max]
    sp += [x for x in (s + e for s in SPECIAL for e in (n, -n, n // 2)) if ii.min <= x <= ii.max]
    style = rnd.choice(['in', 'in', 'mix', 'mix', 'asc', 'desc', 'neg', 'edges', 'same'])
    lo, hi = max(ii.min, -n), min(ii.max, n - 1)
    if style == 'edges' or n == 0:
        return [rnd.choice(sp) for _ in range(m)]
    if style == 'asc':
        return [min(hi, j % n) for j in range(m)]
    if style == 'desc':
        return [min(hi, n - 1 - j % n) for j in range(m)]
    if style == 'same':
        return [rnd.choice(sp)] * m
    v = rng.integers(lo, hi, m, endpoint=True).tolist() if style != 'neg' or ii.min == 0 else rng.integers(lo, -1, m, endpoint=True).tolist()
    if style == 'mix' and m:
        for _ in range(max(1, m // rnd.choice([4, 20, 200]))):
            v[rnd.randrange(m)] = rnd.choice(sp)
    return v


GL = [0, 1, 2, 3, 7, 8, 9, 31, 64, 100, 1000, 16383, 16384, 16385, 65535, 65536, 65537, 65543, 65536 + 16384, 81921, 98303, 131077]
GN = [0, 1, 2, 3, 17, 100, 127, 128, 129, 130, 255, 256, 257, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70001]

if arg['what'] == 'gather':
    for _ in range(arg['cases']):
        k = sizes()
        d = np.dtype(rnd.choice(BY[k]))
        if d.byteorder == '>':
            d = d.newbyteorder('=')         # an invalid value in the other byte order is not specified
        it = rnd.choice(ITYPES)
        n, m = rnd.choice(GN), rnd.choice(GL)
        if rnd.random() < 0.3:
            n = rnd.randint(1, 3000)
        idx = indices_for(it, n, m)
        s = np.iinfo(it).min < 0
        do_gather(idx, it, n, k, d, layout(k), layout(np.dtype(it).itemsize), [pick_row(s, x, n) for x in idx], 'random')
    for n, s, rows in arg.get('table', []):
        for k in rnd.sample(sorted(BY), 6) + [1, 2, 4, 8, 16]:
            d = np.dtype(rnd.choice(BY[k])).newbyteorder('=')
            vals = list(range(-128, 128)) if s else list(range(256))
            p = rng.permutation(256)
            do_gather([vals[q] for q in p], 'i1' if s else 'u1', n, k, d, layout(k), layout(1), [rows[q] for q in p], 'table')
            tick('table entries', 256)
    for _ in range(arg['records']):
        it = rnd.choice(ITYPES)
        s = np.iinfo(it).min < 0
        n, m = rnd.choice([0, 1, 2, 5, 127, 128, 129, 200, 255, 256, 300]), rnd.choice([0, 1, 8, 9, 40, 100])
        k = rnd.choice([4, 8, 16, 5, 7, 9, 12, 17, 33])
        d = np.dtype(rnd.choice(BY[k])).newbyteorder('=')
        idx = indices_for(it, n, m)
        r, B = do_gather(idx, it, n, k, d, layout(k), layout(np.dtype(it).itemsize), [pick_row(s, x, n) for x in idx], 'record')
        where = {B[x].tobytes(): x for x in range(n)}
        rows = [where.get(x.tobytes(), -1) for x in bytesof(r, k)]
        c = lambda x: max(-2 ** 30, min(2 ** 30, x))
        trace.write(json.dumps(dict(kind='gather', n=n, signed=s, idx=[c(x) for x in idx], rows=rows)) + '\n')
        tick('traces')
    for it in ITYPES:                       # indexes of more than one dimension give their rows in order
        d = np.dtype('f8')
        idx = rng.integers(0, 50, (4, 6)).astype(it)
        a = np.arange(50.0)
        for name, x in (('C', idx), ('F', np.asfortranarray(idx)), ('T', idx.T), ('cut', idx[:, ::2]), ('col', idx[:, :1]), ('row', idx[1:2]), ('win', np.lib.stride_tricks.sliding_window_view(idx.reshape(-1), 3)), ('bc', np.broadcast_to(idx[0, 0], (3, 3)))):
            progress('getitem with a %s index of two dimensions' % name)
            try:
                r = pn.getitem(a, x)
            except ValueError:
                tick('arguments rejected')
                continue
            tick('arguments accepted')
            w = np.take(a, x.reshape(-1).astype('i8'))
            if not np.array_equal(np.asarray(r).reshape(-1), w):
                fail('an index array of two dimensions (%s, %s) gives %s instead of %s' % (name, it, r.reshape(-1)[:8], w[:8]))
    hook_battery(False)
    direct_battery('gather')
trace.close()
json.dump({'fails': fails, 'counts': counts}, open(sys.argv[2], 'w'))
