"""np.arange of the real module: against the formula first + k * (second - first) computed without arrays, against numpy's own fill
(acceleration off), and records for FillTrace.tla."""
import json, math, random, struct, sys
import numpy as np
arg = json.load(open(sys.argv[1]))
np.seterr(all='ignore')
fails, counts = [], {}
_pf = open(sys.argv[2] + '.progress', 'w')


def progress(s):
    _pf.seek(0)
    _pf.write(s.ljust(600)[:600])
    _pf.flush()


def fail(what, **k):
    if len(fails) < 12:
        fails.append(dict(what=what, **k))
    counts['failed'] = counts.get('failed', 0) + 1


def tick(k, n=1):
    counts[k] = counts.get(k, 0) + n


rnd = random.Random(arg['seed'])
BATTERY = [(), (5,), (5, 'x'), (0,), (-3,), (2, 2), (0, 5, 0), (0, 5, float('nan')), (float('nan'), 5), (0, float('inf')), (1, 5, -1), (0, 1, 0.1), (5, 0, -2), (0.5,), (3, None), (None,), (1 + 2j, 5), (2 ** 63, 2 ** 63 + 5),
           (-2 ** 63, -2 ** 63 + 7), (2 ** 64 - 5, 2 ** 64 - 1), (2 ** 70, 2 ** 70 + 3), (np.datetime64('2000-01-01'), np.datetime64('2000-02-01')), (np.timedelta64(0, 's'), np.timedelta64(90, 's'), np.timedelta64(7, 's')), (np.float32(1), np.float32(4)),
           (np.int8(1), np.int8(100)), (True,), (False, True), (0, 1e-320, 1e-321), (1e308, -1e308, -1e307), (0, 10, 1e-1), (-1, 4e16, 2.0 ** 53 + 2), (0, 100000), (0.1, 90000), (90000, 0, -1), (0, 7e4, 0.7)]
DT = [None, 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'f2', 'f4', 'f8', 'g', 'c8', 'c16', '?', 'O', '>i4', '>f8', 'S3', 'M8[s]', 'm8[s]', 'V4']


def outcome(f):
    try:
        r = f()
    except Exception as e:
        return ('error', type(e).__name__)
    return ('array', str(r.dtype), r.shape, repr(r.tolist()) if r.dtype.kind == 'O' else r.tobytes() if r.dtype.char not in 'gG' else r.view('u1').reshape(-1, 16)[:, :10].tobytes())


def battery():
    out = []
    for a in BATTERY:
        for d in DT:
            progress('arange%r %s' % (a, d))
            out.append((a, d, outcome(lambda: np.arange(*a) if d is None else np.arange(*a, dtype=d))))
    for n in (5, 70001):
        out.append(('linspace', n, outcome(lambda: np.linspace(-1, 3.3, n))))
        out.append(('r_', n, outcome(lambda: np.r_[0:n:3, -n:0])))
        out.append(('mgrid', n, outcome(lambda: np.mgrid[0:n, 0:2])))
        out.append(('logspace', n, outcome(lambda: np.geomspace(1, 100, n).shape and np.arange(n)[::-1].copy())))
        out.append(('indices', n, outcome(lambda: np.indices((n, 2)))))
    return out


plain = battery()           # before pnumpy is there
import pnumpy as pn
import pnumpy._pnumpy as raw
pn.initialize() if hasattr(pn, 'initialize') else None
if arg.get('workers') is not None:
    raw.thread_setworkers(arg['workers'])
raw.thread_enable() if arg.get('threads', True) else raw.thread_disable()
trace = open(arg['trace_file'], 'w')
for (a, d, e), (_, _, g) in zip(plain, battery()):
    tick('argument combinations')
    if e != g:
        fail('arange%r dtype %s: %s instead of %s' % (a, d, str(g)[:140], str(e)[:140]))
LENS = [3, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 100, 1000, 16383, 16384, 16385, 16386, 32768, 49153, 65535, 65536, 65537, 65538, 65543, 65536 + 16384, 81921, 98304, 131073, 200003]
INT = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'l', 'L', 'b', 'B', 'i', 'I']


def f4(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def positions(n):
    s = {0, 1, 2, 3, n - 1, n - 2, n // 2}
    for c in range(0, n, 16384):
        s |= {c - 2, c - 1, c, c + 1, c + 2}
    s |= {rnd.randrange(n) for _ in range(12)}
    return sorted(x for x in s if 0 <= x < n)


def check(a, t, n, first, second, form, det):
    """form: item k from the formula, as an exact python number or a float"""
    d = np.dtype(t)
    tick('fills')
    if type(a) is not np.ndarray or a.dtype != d or a.shape != (n,) or not a.flags.c_contiguous:
        fail('arange gives %s %s' % (a.dtype, a.shape), **det)
        return False
    if n > 0 and a[0].item() != first or n > 1 and a[1].item() != second:
        fail('arange starts with %s, %s instead of %s, %s (%s)' % (a[0], a[1], first, second, det), **det)
        return False
    step = 1 if n < 3000 else max(1, n // 3000)
    ks = set(range(2, n, step)) | set(positions(n)) if n > 2 else ()
    for k in ks:
        if k >= 2:
            e, g = form(k), a[k].item()
            if not (g == e or e != e and g != g):
                fail('arange: item %d of %d is %s instead of %s (%s)' % (k, n, g, e, det), item=k, **det)
                return False
    raw.atop_disable()
    try:
        ref = np.arange(*det['args'], dtype=t)
    finally:
        raw.atop_enable()
    if d.char not in 'gG' and ref.tobytes() != a.tobytes() or d.char in 'gG' and not np.array_equal(ref, a, equal_nan=True):
        k = int(np.flatnonzero(ref != a)[0]) if len(ref) == n and (ref != a).any() else -1
        fail('arange: item %d of %d differs from numpy: %s, %s (%s)' % (k, n, a[k], ref[k], det), item=k, **det)
        return False
    return True


def le(v, b):
    return list((v % (1 << (8 * b))).to_bytes(b, 'little'))


for _ in range(arg['cases']):
    n = rnd.choice(LENS) if rnd.random() < 0.8 else rnd.randint(0, 3000)
    if rnd.random() < 0.5:
        t = rnd.choice(INT)
        ii = np.iinfo(t)
        bits = ii.bits
        # start and step such that numpy's length, computed in double precision, is n
        if rnd.random() < 0.6:
            step = rnd.choice([1, 1, -1, 2, 3, -7, 100, rnd.randint(-1000, 1000) or 1])
        else:
            step = rnd.randint(-(1 << min(bits, 52)), 1 << min(bits, 52)) // max(n, 1) or rnd.choice([1, -1, 3])
        start = rnd.choice([0, 0, 1, ii.min, ii.max - 1, ii.max // 2, -5 if ii.min else 5, rnd.randint(int(ii.min), int(ii.max))])
        if bits == 64:
            start = rnd.choice([0, 1, 7, -3 if ii.min else 3, rnd.randint(-2 ** 40, 2 ** 40) if ii.min else rnd.randint(0, 2 ** 40)])
            if ii.min == 0 and start + step < 0:
                step = abs(step)
        args = (start, start + n * step, step)
        det = dict(args=args, dtype=t, n=n)
        progress(str(det))
        if not (ii.min <= start <= ii.max and ii.min <= start + step <= ii.max):
            continue                        # numpy refuses or wraps the first two values
        try:
            raw.atop_disable()
            ref = np.arange(*args, dtype=t)
            raw.atop_enable()
        except Exception as e:
            raw.atop_enable()
            continue
        a = np.arange(*args, dtype=t)
        if len(a) != n:
            if len(ref) != n:
                continue
            fail('arange has %d items instead of %d' % (len(a), n), **det)
            continue
        mod, lo = 1 << bits, ii.min
        ok = check(a, t, n, start, start + step, lambda k: (start + k * step - lo) % mod + lo, det)
        if ok and n > 2 and rnd.random() < 0.3:
            b = bits // 8
            ps = positions(n)
            ks = rnd.sample(ps, min(8, len(ps)))
            trace.write(json.dumps(dict(kind='int', first=le(a[0].item(), b), second=le(a[1].item(), b), at=[le(k, 8) for k in ks], val=[le(a[k].item(), b) for k in ks])) + '\n')
            tick('traces')
        if ok and max(abs(x) for x in args) < 2 ** 30:
            trace.write(json.dumps(dict(kind='length', start=args[0], stop=args[1], step=args[2], n=len(a))) + '\n')
            tick('traces')
    else:
        t = rnd.choice(['f4', 'f8', 'f8', 'd', 'f', 'g', 'f2', 'c8', 'c16'])
        exact = rnd.random() < 0.3
        if exact:
            unit = 2.0 ** rnd.randint(-8, 2)
            si, st = rnd.randint(-100, 100), rnd.choice([1, -1, 2, 3, 5, -4, 25])
            if t == 'f2':
                n = min(n, 300)
            if t in ('f2', 'f4', 'f', 'c8') and n * abs(st) + 100 > (1 << 24 if t != 'f2' else 2048):
                n = 60
            start, step = si * unit, st * unit
        else:
            start = rnd.choice([0.0, -0.0, 0.1, -1.0, 1e-3, rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-6, 6), 1e16, -3.3])
            step = rnd.choice([1.0, 0.1, -0.1, 1 / 3, 0.7, 2.0 ** 53 + 2, -1e-9, rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-6, 6), 1e300 if t in ('f8', 'd') else 1e30])
        stop = start + n * step
        if rnd.random() < 0.2:
            stop -= step / 2
        det = dict(args=(start, stop, step), dtype=t, n=n)
        if not math.isfinite(stop) or step == 0 or n == 0:
            continue
        progress(str(det))
        delta = stop - start
        n = math.ceil(delta / step) if delta / step != 0 else (1 if delta != 0 else 0)
        if n <= 0 or n > 300000:
            continue
        det['n'] = n
        a = np.arange(start, stop, step, dtype=t)
        d = np.dtype(t)
        R = {'f4': f4, 'f8': float}.get(d.str[1:], None)
        if R is None or len(a) != n:        # half and long double and complex: numpy's own fill
            raw.atop_disable()
            ref = np.arange(start, stop, step, dtype=t)
            raw.atop_enable()
            tick('fills')
            if len(ref) != len(a) or not np.array_equal(ref, a, equal_nan=True):
                fail('arange differs from numpy (%s): %s, %s' % (det, a[:4], ref[:4]), **det)
                continue
            ok = True
        else:
            first, second = R(start), R(start + step)
            dl = R(second - first)
            ok = check(a, t, n, first, second, lambda k: R(first + R(R(float(k)) * dl)), det)
        if ok and exact and n > 2 and d.kind == 'f':
            ps = positions(n)
            ks = rnd.sample(ps, min(12, len(ps)))
            v = [float(a[k]) / unit for k in ks]
            if all(x == int(x) for x in v):
                trace.write(json.dumps(dict(kind='float', first=int(float(a[0]) / unit), second=int(float(a[1]) / unit), at=ks, val=[int(x) for x in v])) + '\n')
                tick('traces')
            else:
                fail('arange of exact values is not exact: %s (%s)' % (v, det), **det)
trace.close()
json.dump({'fails': fails, 'counts': counts}, open(sys.argv[2], 'w'))
