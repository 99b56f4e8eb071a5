"""Reductions of the real module: recorded 8 bit reductions for ReduceTrace.tla, and every ufunc's reduce, reduceat and the
array methods over random shapes, layouts, axes, initial values and masks against plain NumPy (evaluated before pnumpy is
initialised): exactly for integers, booleans, minima, maxima and operations in a fixed order, otherwise up to re-association."""
import json, random, sys
import numpy as np
arg = json.load(open(sys.argv[1]))
np.seterr(all='ignore')
fails, counts = [], {}
_pf = open(sys.argv[2] + '.progress', 'w')


def progress(s):
    _pf.seek(0)
    _pf.write(s.ljust(600)[:600])
    _pf.flush()


def fail(what, **k):
    if len(fails) < 12:
        fails.append(dict(what=what, **k))
    counts['failed'] = counts.get('failed', 0) + 1


def tick(k, n=1):
    counts[k] = counts.get(k, 0) + n


OPS = ['add', 'multiply', 'minimum', 'maximum', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'logical_and', 'logical_or', 'logical_xor', 'fmin', 'fmax',
       'add', 'multiply', 'minimum', 'maximum', 'add', 'minimum', 'maximum', 'subtract', 'true_divide', 'floor_divide', 'remainder', 'left_shift', 'right_shift',
       'equal', 'less', 'greater', 'not_equal', 'hypot', 'logaddexp']      # plain NumPy's arctan2 and power reductions are not deterministic
METHODS = ['sum', 'prod', 'min', 'max', 'any', 'all', 'mean', 'std', 'ptp', 'argmin', 'argmax', 'nansum', 'nanmax', 'nanmin', 'count_nonzero', 'median',
           'average', 'cumsum', 'trace', 'dot']
TYPES = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'f2', 'f4', 'f8', 'f4', 'f8', 'f4', 'f8', 'g', '>i4']
LENS = list(range(0, 70)) + [95, 96, 97, 127, 128, 129, 160, 255, 256, 257, 511, 512, 513, 1000, 1023, 1025]
MID = [2047, 4096, 4097, 8191, 8192, 8193, 10007]
BIG = [65535, 65536, 65537, 65536 + 33, 81920, 100003, 131072 + 17, 147457]


def values(rng, rnd, t, n, op):
    t = np.dtype(t).newbyteorder('=')
    k = t.kind
    if k == 'b':
        p = rnd.choice([0.5, 0.02, 0.98, 0, 1])
        v = rng.random(n) < p
        if rnd.random() < 0.3 and op in ('minimum', 'maximum', 'logical_and', 'logical_or', 'bitwise_and', 'bitwise_or', 'add', 'multiply', 'min', 'max', 'any', 'all', 'sum',
                                         'prod', 'argmin', 'argmax', 'count_nonzero', 'mean', 'cumsum'):
            v = np.where(v, rng.integers(1, 256, n), 0).astype(np.uint8).view(bool)        # any byte but 0 is true
        return v, True
    if k in 'iu':
        ii = np.iinfo(t)
        style = rnd.choice(['full', 'small', 'one', 'ext'])
        if style == 'full':
            v = np.frombuffer(rng.bytes(n * t.itemsize), dtype=t).copy()
        elif style == 'small':
            v = rng.integers(0 if k == 'u' else -4, 5, n).astype(t)
        elif style == 'one':
            v = np.full(n, rnd.choice([1, 2, 3, ii.max, ii.min]), dtype=t)
            if n:
                v[rng.integers(0, n)] = rnd.choice([0, 5, ii.min, ii.max])
        else:
            v = rng.choice(np.array([ii.min, ii.max, 0, 1], dtype=t), n)
        return v, True
    exact = True
    style = rnd.choice(['ints', 'ints', 'normal', 'spec', 'one'])
    if op in ('multiply', 'prod'):
        v = np.where(rng.random(n) < 4.0 / max(n, 4), rng.choice(np.array([2, .5, -1, -2, 1.5]), n), 1.0)
        if style == 'spec':
            v = np.where(rng.random(n) < 2.0 / max(n, 2), rng.choice([np.nan, np.inf, -np.inf, 0.0], n), v)
        elif style == 'normal':
            v, exact = 1 + rng.standard_normal(n) / 50, False
    elif style == 'ints':
        v = rng.integers(-9, 10, n).astype(float)
    elif style == 'normal':
        v, exact = rng.standard_normal(n), False
        if rnd.random() < .3:
            v = v + 5
    elif style == 'one':
        v = np.full(n, rnd.choice([1.0, -3.0, 0.0, -0.0]))
        if n:
            v[rng.integers(0, n)] = rnd.choice([7.0, -7.0, np.nan, np.inf, 0.0])
    else:
        v = rng.integers(-9, 10, n).astype(float)
        m = rng.random(n) < rnd.choice([0.001, 0.05, 0.5])
        v = np.where(m, rng.choice([np.nan, np.inf, -np.inf, 0.0, -0.0], n), v)
    if t.itemsize == 2:
        exact = False
    return v.astype(t), exact


def case(seed):
    rng, rnd = np.random.default_rng(seed), random.Random(seed)
    u = rnd.random()
    op = rnd.choice(METHODS) if u < 0.2 else rnd.choice(OPS)
    t = rnd.choice(TYPES)
    nd = rnd.choice([1, 1, 1, 1, 2, 2, 3])
    size = rnd.random()
    if nd == 1:
        shape = (rnd.choice(LENS if size < .75 else MID if size < .88 else BIG),)
    elif nd == 2:
        a, b = rnd.choice(LENS + MID[:3]), rnd.choice([1, 2, 3, 4, 7, 8, 9, 16, 17, 33])
        if size > .93:
            a = rnd.choice(BIG)
            b = rnd.choice([1, 2, 3])
        shape = (a, b) if rnd.random() < .5 else (b, a)
    else:
        shape = tuple(rnd.choice([1, 2, 3, 5, 8, 9, 17, 33]) for _ in range(3))
    n = int(np.prod(shape))
    step = [rnd.choice([1, 1, 1, 2, 3, -1, -2]) for _ in shape]
    big = tuple(s * abs(d) + rnd.choice([0, 0, 1]) for s, d in zip(shape, step))
    perm = list(range(nd))
    if rnd.random() < .4:
        rnd.shuffle(perm)
    flat, exact = values(rng, rnd, t, int(np.prod(big)), op)
    off = rnd.choice([0, 0, 1, 3])
    flat = np.concatenate([flat[:off], flat])[off:] if len(flat) >= off else flat
    base = flat.astype(t).reshape([big[p] for p in perm]).transpose(np.argsort(perm))
    a = base[tuple(slice(None, s * d, d) if d > 0 else slice(s * -d - 1, None, d) for s, d in zip(shape, step))]
    a = a[tuple(slice(0, s) for s in shape)]
    if rnd.random() < .12 and n:          # the same item again and again
        keep = [slice(rnd.randrange(q), None) if rnd.random() < .7 else slice(None) for q in shape]
        a = np.broadcast_to(a[tuple(k if k.start is None else slice(k.start, k.start + 1) for k in keep)], shape)
    axis = rnd.choice([None] + list(range(-nd, nd))) if rnd.random() < .9 else tuple(sorted(rnd.sample(range(nd), rnd.randint(1, nd))))
    kw = {'axis': axis}
    if rnd.random() < .25:
        kw['keepdims'] = True
    desc = '%s %s shape=%s strides=%s' % (op, a.dtype, a.shape, a.strides)
    src = a.copy()
    fixed = op in ('subtract', 'true_divide', 'floor_divide', 'remainder', 'hypot', 'logaddexp', 'arctan2', 'power')
    try:
        if u < 0.2:
            if op == 'ptp':
                kw.pop('keepdims', None)
                r = np.ptp(a, **kw)
            elif op in ('argmin', 'argmax'):
                kw.pop('keepdims', None)
                if isinstance(axis, tuple):
                    kw['axis'] = axis[0]
                r = getattr(a, op)(**kw)
            elif op in ('cumsum',):
                kw.pop('keepdims', None)
                kw['axis'] = axis if not isinstance(axis, tuple) else None
                r = np.cumsum(a, **kw)
            elif op in ('trace', 'dot'):
                r = a.sum() if a.ndim < 2 else np.trace(a) if op == 'trace' else np.add.reduce(a @ np.ones(a.shape[-1], a.dtype), axis=None) if a.dtype.kind in 'iu' else a.sum()
            elif op == 'average':
                kw.pop('keepdims', None)
                r = np.average(a, **kw)
            elif op == 'median':
                r = np.median(a, **kw)
            else:
                r = getattr(np, op)(a, **kw)
        else:
            f = getattr(np, op)
            if rnd.random() < .25:
                kw['dtype'] = a.dtype if rnd.random() < .7 else rnd.choice(['f4', 'f8', 'i8', 'i4'])
            if rnd.random() < .12 and a.ndim:
                ax = axis if isinstance(axis, int) else 0
                m = a.shape[ax]
                kw = {'axis': ax}
                if not m:
                    return None
                ix = np.array([rnd.randrange(m) for _ in range(rnd.choice([1, 2, 3, 8, 40]))])
                desc += ' reduceat %s' % ix.tolist()[:8]
                r = f.reduceat(a, ix, axis=ax)
            else:
                if rnd.random() < .2:
                    kw['initial'] = rnd.choice([0, 1, 5, -3 if a.dtype.kind not in 'bu' else 2])
                if rnd.random() < .12:
                    kw['where'] = rng.random(shape) < rnd.choice([0.1, 0.6])
                    kw.setdefault('initial', 1)
                if rnd.random() < .1:
                    probe = f.reduce(a, **kw)
                    if isinstance(probe, np.ndarray) and probe.size:
                        o = np.zeros([2 * s for s in probe.shape], probe.dtype)
                        kw['out'] = o[tuple(slice(None, None, 2) for _ in probe.shape)]
                r = f.reduce(a, **kw)
        desc += ' %s' % {k: (v if not isinstance(v, np.ndarray) else 'array') for k, v in kw.items()}
    except Exception as e:
        return desc, type(e).__name__, a, exact, op, True
    if a.dtype.char != 'g' and a.tobytes() != src.tobytes():
        return desc, 'input modified', a, exact, op, True
    return desc, np.array(r), a, exact, op, True


def compare(ref, got):
    desc, r0, a, exact, op, _ = ref
    _, r, _, _, _, _ = got
    if isinstance(r, str) or isinstance(r0, str):
        if not (isinstance(r, str) and isinstance(r0, str)) or 'input modified' in (r, r0):
            fail('%s: %s instead of %s' % (desc, r if isinstance(r, str) else 'a result', r0 if isinstance(r0, str) else 'a result'))
        return
    if r.dtype != r0.dtype or r.shape != r0.shape:
        fail('%s: %s %s instead of %s %s' % (desc, r.dtype, r.shape, r0.dtype, r0.shape))
        return
    if not r.size:
        return
    if r.dtype == bool:
        t = bytes([0] + [1] * 255)
        same = np.frombuffer(r.tobytes().translate(t), 'V1') == np.frombuffer(r0.tobytes().translate(t), 'V1')
    elif r.dtype.kind not in 'fg' or r.dtype.itemsize == 16:
        same = (r == r0) | ((r != r) & (r0 != r0)) if r.dtype.kind == 'g' else r == r0
        if r.dtype.kind == 'f':
            same |= np.isnan(r) & np.isnan(r0)
            same |= np.isclose(r.astype('f8'), r0.astype('f8'), rtol=1e-9, atol=1e-9)
    else:
        same = (r == r0) | (np.isnan(r) & np.isnan(r0))
        inexact = not exact or (a.dtype.kind in 'iu' and r.dtype.kind == 'f')
        free = inexact and op in ('add', 'multiply', 'sum', 'prod', 'mean', 'std', 'nansum', 'average', 'trace', 'dot', 'cumsum', 'logaddexp', 'hypot',
                                    'subtract', 'true_divide', 'power', 'arctan2', 'remainder') or op in ('mean', 'std', 'average', 'logaddexp', 'arctan2', 'hypot', 'power', 'true_divide')
        if free:
            n = max(a.size // max(r.size, 1), 1)
            eps = max(np.finfo(r.dtype).eps, np.finfo(a.dtype).eps if a.dtype.kind == 'f' else 0)
            with np.errstate(all='ignore'):
                scale = float(np.nansum(np.abs(np.where(np.isfinite(a.astype('f8')), a.astype('f8'), 0)))) / max(r.size, 1) + 1 if op not in ('multiply', 'prod', 'true_divide', 'power') else 0
                tol = eps * 4 * (np.sqrt(n) + 8) * (scale + (np.abs(r0.astype('f8')) if scale == 0 else 0)) if op != 'std' else eps * 64 * np.sqrt(n) * (scale + 1)
                if 0 in a.strides:          # the errors of adding one number again and again do not cancel
                    tol *= np.sqrt(n) + 1
                if op in ('multiply', 'prod'):
                    if a.dtype.kind in 'iu':        # an intermediate product may overflow in one order and not in another
                        same |= ~np.isfinite(r0) | ~np.isfinite(r)
                    tol = np.abs(r0.astype('f8')) * eps * 4 * (n + 8)
                same |= np.abs(r.astype('f8') - r0.astype('f8')) <= tol
    if not np.all(same):
        i = np.flatnonzero(~np.atleast_1d(same).ravel())
        fail('%s: %d of %d results wrong, first %d: %r instead of plain numpy\'s %r' % (desc, len(i), r.size, i[0], np.atleast_1d(r).ravel()[i[0]], np.atleast_1d(r0).ravel()[i[0]]))


def record(count, path, seed):
    rng, rnd = np.random.default_rng(seed), random.Random(seed)
    f = open(path, 'w')
    ops = ['add', 'multiply', 'minimum', 'maximum', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'subtract', 'add', 'minimum', 'maximum']
    for k in range(count):
        sg = rnd.random() < .5
        t = np.dtype('i1' if sg else 'u1')
        n = rnd.choice([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 47, 48, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 160, 200, 255, 256, 257, 300])
        d = rnd.choice([1, 1, 1, 2, 3, -1, 0])
        off = rnd.choice([0, 0, 1, 2, 3, 7])
        mem = rng.integers(0, 256, off + n * abs(d) + 1, dtype='u1').view(t)
        if rnd.random() < .3:
            mem = rng.choice(np.array([0, 1, 255], dtype='u1'), len(mem)).view(t)
        a = mem[off:off + n * abs(d)][::d][:n] if d else np.broadcast_to(mem[off], n)
        kind = rnd.choice(['reduce', 'reduce', 'reduce', 'reduceat', 'arg'])
        rec = {'kind': kind, 'sg': bool(sg), 'data': a.tolist(), 'ix': [], 'first': 0}
        if kind == 'arg':
            if not n:
                continue
            rec['op'] = rnd.choice(['min', 'max'])
            rec['result'] = int(a.argmin() if rec['op'] == 'min' else a.argmax())
        else:
            op = rec['op'] = rnd.choice(ops)
            u = getattr(np, op)
            progress('record %s %s %s n=%d d=%d' % (kind, op, t, n, d))
            if kind == 'reduceat':
                if not n:
                    continue
                ix = [rnd.randrange(n) for _ in range(rnd.choice([1, 2, 5]))]
                rec['ix'] = ix
                rec['result'] = u.reduceat(a, ix, dtype=t).tolist()
            else:
                b = a
                if rnd.random() < .2 and n:      # a column of a matrix
                    m = np.asarray(rng.integers(0, 256, (n, 3), dtype='u1').view(t))
                    m[:, 1] = a
                    r = u.reduce(m, axis=0, dtype=t)[1]
                    rec['first'], rec['data'] = int(a[0]), a[1:].tolist()
                elif rnd.random() < .4 or not n:
                    first = rnd.choice([0, 1, 5, 100, t.type(-1) if sg else 255])
                    rec['first'] = int(first)
                    r = u.reduce(b, dtype=t, initial=first)
                else:
                    rec['first'], rec['data'] = int(a[0]), a[1:].tolist()
                    r = u.reduce(b, dtype=t)
                rec['result'] = int(r)
        f.write(json.dumps(rec) + '\n')
        tick('traces')
    f.close()


def main():
    base = arg['seed'] * 1000003
    refs = [case(base + i) for i in range(arg['cases'])]
    import pnumpy as pn
    pn.initialize()
    if arg.get('workers') is not None:
        pn.thread_setworkers(arg['workers'])
    if not arg.get('threads', True):
        pn.thread_disable()
    for i, ref in enumerate(refs):
        if ref is None:
            continue
        progress('case %d %s' % (i, ref[0]))
        compare(ref, case(base + i))
        tick('reductions')
        refs[i] = None
    record(arg['traces'], arg['trace_file'], arg['seed'])
    json.dump({'fails': fails, 'counts': counts}, open(sys.argv[2], 'w'))


main()
