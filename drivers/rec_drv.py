"""recarray_to_colmajor on the real module: records of random bytes between unreadable pages, of layouts RecArray.tla enumerates and
random ones; every column compared with the bytes of the records; records for RecTrace.tla."""
import json, random, sys, warnings
import numpy as np
from arena import Arena
arg = json.load(open(sys.argv[1]))
fails, counts = [], {}
_pf = open(sys.argv[2] + '.progress', 'w')


def progress(s):
    _pf.seek(0)
    _pf.write(s.ljust(800)[:800])
    _pf.flush()


def fail(what, **k):
    if len(fails) < 12:
        fails.append(dict(what=what, **k))
    counts['failed'] = counts.get('failed', 0) + 1


def tick(k, n=1):
    counts[k] = counts.get(k, 0) + n


rnd = random.Random(arg['seed'])
rng = np.random.default_rng(arg['seed'])
import pnumpy as pn
import pnumpy._pnumpy as raw
pn.initialize() if hasattr(pn, 'initialize') else None
if arg.get('workers') is not None:
    raw.thread_setworkers(arg['workers'])
raw.thread_enable() if arg.get('threads', True) else raw.thread_disable()
trace = open(arg['trace_file'], 'w')
BY = {1: ['i1', 'u1', '?', 'S1'], 2: ['i2', 'u2', 'f2', 'S2', '>i2', '>f2'], 3: ['S3'], 4: ['i4', 'u4', 'f4', 'U1', '>f4', '>i4', 'S4'], 5: ['S5'], 6: ['S6'], 7: ['S7'],
      8: ['i8', 'u8', 'f8', 'M8[s]', 'm8[ns]', 'c8', 'U2', 'q', 'Q', '>f8', 'S8'], 9: ['S9'], 10: ['S10'], 12: ['U3', 'S12'], 13: ['S13'], 15: ['S15'], 16: ['c16', 'g', 'U4', 'S16'],
      17: ['S17'], 20: ['U5', 'S20'], 23: ['S23'], 24: ['S24', 'U6'], 25: ['S25'], 31: ['S31'], 32: ['G', 'U8'], 33: ['S33'], 100: ['U25'], 1000: ['S1000'], 40000: ['U10000']}
AR = Arena(64 << 20)


def random_layout():
    """-> item size, list of (offset, size)"""
    k = rnd.choice([1, 1, 2, 3, 3, 4, 6, 9, 20])
    common = rnd.random() < 0.5
    fs, off = [], rnd.choice([0, 0, 0, 1, 3, 8])
    for _ in range(k):
        s = rnd.choice([1, 2, 4, 4, 8, 8]) if common or rnd.random() < 0.5 else rnd.choice([x for x in BY if x < 101])
        fs.append((off, s))
        off += s + rnd.choice([0, 0, 0, 1, 2, 4, 5])
    item = off + rnd.choice([0, 0, 0, 1, 3, 7])
    if rnd.random() < 0.3:
        rnd.shuffle(fs)
    if rnd.random() < 0.2:                  # overlapping fields
        o, s = rnd.choice(fs)
        fs.append((o, rnd.choice([1, s])))
        if o + 4 <= item:
            fs.append((o, 4))
    if rnd.random() < 0.1:
        big = rnd.choice([1000, 40000])
        fs.append((item, big))
        item += big
    return item, fs


def rows_for(item, cap):
    ch = max(1, 32768 // (2 * item))
    c = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 25, 33, 100, ch - 1, ch, ch + 1, ch + 4, ch + 8, ch + 9, 2 * ch + 3, 16383, 16384, 16385, 16393, 32767, 32768, 32769, 32768 + ch + 5, 49152, 49157, 65537, 100003]
    return rnd.choice([x for x in c if 0 <= x * item <= cap] or [1])


def build(item, fs):
    names = ['f%d' % i if rnd.random() < 0.8 else 'näme %d' % i for i in range(len(fs))]
    d = dict(names=names, formats=[rnd.choice(BY[s]) for _, s in fs], offsets=[o for o, _ in fs], itemsize=item)
    if rnd.random() < 0.1:
        d['titles'] = ['title %d' % i for i in range(len(fs))]
    return np.dtype(d)


def verify(r, d, want, det, shape):
    tick('conversions')
    if type(r) is not dict or list(r) != list(d.names):
        return fail('the result has the fields %s instead of %s (%s)' % (list(r) if isinstance(r, dict) else type(r), list(d.names), det), **det)
    for name in d.names:
        fd, off = d.fields[name][:2]
        a = r[name]
        if not isinstance(a, np.ndarray) or a.dtype != fd.base or a.shape != shape + fd.shape or not a.flags.c_contiguous or not a.flags.writeable:
            return fail('field %s is %s %s instead of %s %s, contiguous %s (%s)' % (name, a.dtype, a.shape, fd, shape, a.flags.c_contiguous, det), **det)
        if np.shares_memory(a, AR.buf):
            return fail('field %s is not a copy (%s)' % (name, det), **det)
        w = want[:, off:off + fd.itemsize]
        g = np.frombuffer(a.tobytes(), 'u1').reshape(w.shape)
        tick('fields')
        if not np.array_equal(w, g):
            k = int(np.flatnonzero((w != g).any(axis=1))[0])
            return fail('field %s (%s at %d), row %d of %d is %s instead of %s (%s)' % (name, fd, off, k, len(w), g[k].tolist()[:16], w[k].tolist()[:16], det), row=k, **det)


def place(M, gap, back, off, end):
    n, item = M.shape
    st = item + gap
    span = (n - 1) * st + item if n else 0
    lo = AR.size - span - off if end else off
    if gap and n:
        AR.buf[lo:lo + span] = 0xEE
    np.ndarray((n, item), 'u1', AR.buf, lo, (st, 1))[...] = M[::-1] if back else M
    return lo + (n - 1) * st if back and n else lo, -st if back else st


def convert(item, fs, n, plain):
    d = build(item, fs)
    M = rng.integers(0, 256, (n, item), dtype='u1')
    gap, back, off = (0, False, rnd.choice([0, 0, 1, 5])) if plain else (rnd.choice([0, 1, item, 3 * item]), rnd.random() < 0.5, rnd.choice([0, 3]))
    end = rnd.random() < 0.6
    lo, st = place(M, gap, back, off, end)
    x = np.ndarray((n,), d, AR.buf, min(lo, AR.size), (st,)) if n else np.zeros(0, d)
    kind = rnd.choice(['array', 'array', 'readonly', 'recarray', '2d'])
    shape = (n,)
    if kind == 'readonly':
        x.flags.writeable = False
    elif kind == 'recarray':
        x = x.view(np.recarray)
    elif kind == '2d' and n and n % 3 == 0:
        x = x.reshape(3, n // 3)
        shape = x.shape
    par = rnd.random() < 0.85
    det = dict(rows=n, item=item, fields=[list(f) for f in fs], formats=[str(d.fields[q][0]) for q in d.names], gap=gap, back=back, offset=off, kind=kind, parallel=par)
    progress(json.dumps(det))
    r = pn.recarray_to_colmajor(x, parallel=par) if not par or rnd.random() < 0.5 else pn.recarray_to_colmajor(x)
    if kind == 'recarray':
        r = {q: np.asarray(v) for q, v in r.items()}
    verify(r, d, M, det, shape)
    if n and not np.array_equal(np.ndarray((n, item), 'u1', AR.buf, lo, (st, 1)), M):
        fail('the records were modified (%s)' % det, **det)
    return M, d, r, lo, st


for _ in range(arg['cases']):
    item, fs = random_layout()
    convert(item, fs, rows_for(item, rnd.choice([20000, 400000, 8 << 20])), rnd.random() < 0.8)
for item, fs in arg.get('layouts', []):
    for n in rnd.sample([1, 4, 5, 8, 9, 13, 100, 1000, 3277, 5000, 16384, 16385, 20000, 40000, 70001], 4):
        s = rnd.choice([1, 1, 2, 4])        # the layout as it is or with every size multiplied
        convert(item * s, [(o * s, z * s) for o, z in fs], n, rnd.random() < 0.8)
        tick('model layouts')
for _ in range(arg['records']):
    item, fs = random_layout()
    if item > 60:
        continue
    n = rnd.choice([0, 1, 4, 5, 8, 9, 10, 17, 20])
    M, d, r, lo, st = convert(item, fs, n, rnd.random() < 0.8)
    after = np.ndarray((n, item), 'u1', AR.buf, lo, (st, 1)) if n else M
    if isinstance(r, dict) and list(r) == list(d.names):
        trace.write(json.dumps(dict(item=item, rows=n, fields=[[d.fields[q][1], d.fields[q][0].itemsize] for q in d.names], src=M.reshape(-1).tolist(), after=after.reshape(-1).tolist(),
                                    cols=[list(r[q].tobytes()) for q in d.names])) + '\n')
        tick('traces')
# fields of other kinds, and arguments which are no records
for n in (0, 1, 5, 16385, 40000):
    for par in (True, False):
        d = np.dtype([('a', 'i4'), ('sub', 'f8', (2, 3)), ('n', [('x', 'i2'), ('y', 'S3')]), ('b', 'f4')])
        M = rng.integers(0, 256, (n, d.itemsize), dtype='u1')
        x = np.zeros(n, d)
        if n:
            x.view('u1').reshape(n, d.itemsize)[...] = M
        progress('subarray and nested fields, %d rows' % n)
        verify(pn.recarray_to_colmajor(x, parallel=par), d, M, dict(rows=n, what='subarray and nested fields', parallel=par), (n,))
        for d in ([('z', 'S0'), ('a', 'i4')], [('a', 'i4'), ('z', 'S0'), ('u', 'U0')], [('z', 'S0')], []):
            x = np.zeros(n, d)
            if 'a' in (x.dtype.names or ()):
                x['a'] = rng.integers(1, 2 ** 31, n)
            progress('empty fields %s, %d rows' % (d, n))
            r = pn.recarray_to_colmajor(x, parallel=par)
            tick('conversions')
            if list(r) != list(x.dtype.names):
                fail('with empty fields the result has the fields %s' % list(r))
            for q in r:
                if len(r[q]) != n or r[q].tolist() != x[q].tolist():
                    fail('with empty fields (%s, %d rows, parallel %s) the column %s is %s instead of %s' % (d, n, par, q, r[q][:4], x[q][:4]))
        x = np.zeros(n, [('o', 'O'), ('a', 'i4')])
        x['o'] = [(k,) for k in range(n)] if n != 1 else np.array([(0,), None], object)[:1]
        x['a'] = np.arange(n)
        progress('object fields, %d rows' % n)
        r = pn.recarray_to_colmajor(x, parallel=par)
        tick('conversions')
        if list(r) != ['o', 'a'] or r['o'].tolist() != x['o'].tolist() or r['a'].tolist() != x['a'].tolist():
            fail('object fields are not converted', rows=n)
for x in (np.arange(5), np.zeros((2, 3)), np.array(['a'])):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tick('other arrays')
        if pn.recarray_to_colmajor(x) is not x:
            fail('an array of no records is not returned as it is')
trace.close()
json.dump({'fails': fails, 'counts': counts}, open(sys.argv[2], 'w'))
