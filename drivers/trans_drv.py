"""The transcendental functions against TransSem.tla (exact results, bounds) and, where that only gives bounds, against plain
NumPy, evaluated in this process before pnumpy is initialised: at most ULPS places apart, the same special values."""
import json, sys
import numpy as np
from drivers import ufunc_drv as U
arg, rnd, rng, tick, fail = U.arg, U.rnd, U.rng, U.tick, U.fail
ULPS = 6
np.seterr(all='ignore')


def ordinal(a):
    """numbers of the type in order: neighbours differ by one"""
    n = a.dtype.itemsize
    i = a.view('i%d' % n).astype('i8')
    return np.where(i < 0, np.int64(-1 << (8 * n - 1)) - i, i) if n < 8 else np.where(i < 0, np.int64(-2 ** 63) - i, i)


def apart(got, exp):
    """wrong or not, elementwise"""
    if got.dtype.kind not in 'f':
        return got != exp
    nan = np.isnan(got) | np.isnan(exp)
    if got.dtype.itemsize > 8:
        e = np.finfo(got.dtype)
        bad = ~(np.abs(got - exp) <= np.maximum(np.abs(exp) * e.eps * ULPS, e.smallest_subnormal * ULPS)) & (got != exp)
    else:
        got, exp = np.ascontiguousarray(got), np.ascontiguousarray(exp)
        a, b = ordinal(got), ordinal(exp)
        with np.errstate(over='ignore'):
            d = np.where(a > b, a - b, b - a).astype('u8')
        bad = d > ULPS
    bad = np.where(nan, np.isnan(got) != np.isnan(exp), bad)
    return bad | ((got == 0) & (exp == 0) & (np.signbit(got) != np.signbit(exp)))


def differ(got, exp, anyzero=None, ok=None):
    return np.flatnonzero(apart(got, exp))


U.differ = differ


def extra_values(t):
    fi = np.finfo(t)
    v = [8192, 8192.001, 8193, 1e4, 1e5, 1e7, 1e9, 1e15, 1e20, 1e30, 3.3e38, 3.4e38, 86.9, 87, 87.1, 87.33, 87.34, 88, 88.1, 88.7, 88.73, 89, 90, 103, 103.97, 104, 709.7, 709.8,
         745.1, 745.2, 746, 0.1, 0.3, 0.5, 0.7, 0.9, 1.1, 2.5, 5, 6.28, 30, 0.0001, 1e-5, 1e-8, 1e-10, 1e-20, 1e-30, 1e-37, 1.17549435e-38, 1.2e-38, 1e-39, 1e-44, 127, 127.9, 128, 149, 150,
         fi.eps, fi.tiny, float(fi.max) if t != 'f4' else 3.4028e38]
    v = np.array(v).astype(t)
    k = np.concatenate([np.arange(1, 9), rng.integers(9, 5300, 12), rng.integers(6000, 10 ** 6, 4)])
    pi = (k * np.pi / 2).astype(t)
    one = np.array([1 - fi.eps / 2, 1 + fi.eps], dtype=t)
    v = np.concatenate([v, pi, one, np.nextafter(np.array([8192, 87, 88, 1.17549435e-38], dtype=t), t.type(np.inf)), np.nextafter(np.array([8192, 87, 88, 1.17549435e-38], dtype=t), t.type(0)),
                        (rng.standard_normal(20) * 3).astype(t)])
    return np.concatenate([v, -v])


def sweep_values(t, n):
    k = n // 6 + 1
    bits = np.frombuffer(rng.bytes(k * t.itemsize), dtype=t).copy()
    w = 1 + rng.standard_normal(k) * np.ldexp(1.0, rng.integers(-30, 0, k))
    piv = (rng.integers(0, 5216, k) * (np.pi / 2)).astype(t)
    piv = piv + (np.spacing(piv) * rng.integers(-4, 5, k)).astype(t)
    parts = [bits, rng.standard_normal(k) * 3, rng.uniform(-120, 120, k), rng.uniform(-9000, 9000, k), w, piv]
    return np.concatenate([p.astype(t) for p in parts])


def load_spec(op, t):
    d = json.load(open('%s/t-%s.json' % (arg['spec'], op)))
    from vlib.floattab import number
    with np.errstate(all='ignore'):
        return [np.array([number(c, t) for c in d[k]], dtype=t) for k in ('alphabet', 'lo', 'hi')]


def mask_values(masks, t):
    """groups of eight, each with its valid elements where the specification says; everything from position 1 on moved by one"""
    inside = rng.uniform(0.25, 0.95, 3000)
    inside[::3] = rng.uniform(1.5, 80, 1000)
    fi = np.finfo(t)
    outside = np.array([np.nan, np.inf, -np.inf, 1e10, -1e10, 0.0, -0.0, fi.smallest_subnormal, 100, -100, 8193, -1, -8193, 3.41e38 if t == 'f4' else 1e300, 89, -88], dtype=t)
    out = [rng.uniform(0.5, 2, 64).astype(t)]
    for m in masks:
        out.append(np.array([rnd.choice(inside) if c == 'in' else rnd.choice(outside) for c in m], dtype=t))
    return np.concatenate(out)


LOOP = {'e': 'e', 'f': 'f', 'd': 'd', 'g': 'g'}


def tref_case(op, seed):
    keep = U.rng, U.rnd
    U.rng, U.rnd = r2, rd = np.random.default_rng(seed), U.random.Random(seed)
    try:
        f = getattr(np, op)
        n = rd.choice(U.LENS + U.MID) if rd.random() < 0.9 else rd.choice(U.BIG)
        t = np.dtype(rd.choice(U.MIX + ['f4', 'f8', 'f4', 'f8', '>f4']))
        st = rd.choice([1, 1, 1, 2, 3, -1, -2])
        a = U.rand_values(t.newbyteorder('='), n * abs(st) + 5)
        if t.kind == 'f' and rd.random() < 0.6:
            a = (r2.uniform(-1, 1, len(a)) * rd.choice([1, 3, 80, 9000])).astype(a.dtype)
        a = a.astype(t)
        o = rd.choice([0, 0, 1, 3])
        a = a[o:o + n * abs(st)][::st][:n]
        kw = {}
        r = f.resolve_dtypes((t, None)) if hasattr(f, 'resolve_dtypes') else None
        loop = (r[1] if r else f(np.ones(1, t.newbyteorder('='))).dtype)
        x = rd.random()
        if x < 0.15:
            wide = rd.choice(['f4', 'f8', 'g', 'f8'])
            if np.can_cast(loop, wide, 'same_kind'):
                kw['out'] = np.full(a.shape, 7, dtype=wide)[::1]
        elif x < 0.3:
            kw['where'] = r2.random(a.shape) < 0.5
            kw['out'] = np.full(a.shape, 7, dtype=loop)
        elif x < 0.4:
            kw['dtype'] = loop = np.dtype(rd.choice(['f4', 'f8', 'g']))
            if t.kind == 'f' and not np.can_cast(t, loop, 'same_kind') or t.kind != 'f' and not np.can_cast(t, loop):
                kw['casting'] = 'unsafe'
        desc = '%s %s %s n=%d %s' % (op, t, a.strides, n, {k: str(getattr(v, 'dtype', v)) for k, v in kw.items()})
        try:
            res = f(a, **kw)
        except Exception as e:
            return desc, type(e).__name__, a, loop
        if kw.get('out') is not None and not isinstance(res, str) and res is not kw['out']:
            return desc, 'another array', a, loop
        return desc, res, a, loop
    finally:
        U.rng, U.rnd = keep


def main():
    masks = json.load(open(arg['masks']))['masks']
    todo = []
    for op, t in arg['only']:
        t = np.dtype(t)
        f = getattr(np, op)
        spec, lo, hi = load_spec(op, t)
        al = np.concatenate([spec, extra_values(t)])
        res = f(al)
        r = res[:len(spec)]
        # the reference itself must be what the specification says
        out = np.where(np.isnan(lo), ~np.isnan(r), ~((r >= lo) & (r <= hi) | (~apart(r, lo)) | (~apart(r, hi))))
        if out.any():
            i = int(np.flatnonzero(out)[0])
            print('SPEC', op, t, spec[i], r[i], lo[i], hi[i])
            U.counts['spec_wrong'] = U.counts.get('spec_wrong', 0) + 1
        exact = (lo == hi) | np.isnan(lo)
        res[:len(spec)] = np.where(exact, lo, r)
        tab = U.Table(op, str(t), al, res, np.ones(len(al), bool), None)
        sw = sweep_values(t, arg['sweep'])
        mk = mask_values(masks, t)
        todo.append((tab, spec, lo, hi, exact, sw, f(sw), mk, f(mk)))
    ops = sorted({o for o, _ in arg['only']})
    refs = []
    base = arg['seed'] * 1000003
    for i in range(arg['refs']):
        refs.append(tref_case(ops[i % len(ops)], base + i)[:2])
    import pnumpy as pn
    pn.initialize()
    if arg.get('workers') is not None:
        pn.thread_setworkers(arg['workers'])
    if not arg.get('threads', True):
        pn.thread_disable()
    sc = json.load(open(arg['scen']))
    for tab, spec, lo, hi, exact, sw, swr, mk, mkr in todo:
        name = '%s of %s' % (tab.op, tab.t)
        U.progress(name)
        f = tab.f
        for sh in range(9):
            x = np.concatenate([rng.uniform(0.3, 0.9, sh).astype(tab.al.dtype), spec, rng.uniform(0.3, 0.9, 20).astype(tab.al.dtype)])
            for n in (len(spec) + sh, len(x)):
                g = f(x[:n])[sh:sh + len(spec)]
                bad = np.where(np.isnan(lo), ~np.isnan(g), ~((g >= lo) & (g <= hi) | ~apart(g, lo) | ~apart(g, hi)))
                bad |= exact & ((g != lo) | (np.signbit(g) != np.signbit(lo))) & ~np.isnan(lo) & (np.isinf(lo) | (lo == 0))
                tick('special', len(g))
                for i in np.flatnonzero(bad)[:1]:
                    fail('%s: %s(%r) = %r, the specification says %r .. %r' % (name, tab.op, spec[i], g[i], lo[i], hi[i]), lane=sh)
        for o in range(8):          # groups whose valid elements are where TransExec puts them
            g = f(mk[64 - o:])
            bad = np.flatnonzero(apart(g, mkr[64 - o:]))
            tick('groups', len(masks))
            if len(bad):
                i = int(bad[0])
                fail('%s: %s(%r) = %r instead of %r at %d of %d' % (name, tab.op, mk[64 - o:][i], g[i], mkr[64 - o:][i], i, len(g)), near=str(mk[64 - o:][i // 8 * 8:i // 8 * 8 + 8]))
        step = [1, 1, 2, -1]
        for s in step:
            g = f(sw[::s])
            e = swr[::s]
            bad = np.flatnonzero(apart(g, e))
            tick('sweep', len(g))
            if len(bad):
                i = int(bad[0])
                fail('%s: %d wrong of %d (step %d), first at %d: %s(%r) = %r instead of %r' % (name, len(bad), len(g), s, i, tab.op, sw[::s][i], g[i], e[i]))
                break
        U.every_value([tab])
        a, b, c = arg['apart']
        U.shapes_phase([tab], sc['apart'], a, b, c)
        a, b, c = arg['shared']
        U.shapes_phase([tab], sc['shared'], a, b, c)
        U.shapes_nd([tab], arg['nd'])
    for i, (desc, r0) in enumerate(refs):
        U.progress('reference %d %s' % (i, desc))
        d, r, a, loop = tref_case(ops[i % len(ops)], base + i)
        tick('reference')
        if isinstance(r, str) or isinstance(r0, str):
            if not (isinstance(r, str) and isinstance(r0, str) and r == r0):
                fail('%s: %s instead of %s' % (desc, r if isinstance(r, str) else 'a result', r0 if isinstance(r0, str) else 'a result'))
            continue
        if r.dtype != r0.dtype or r.shape != r0.shape:
            fail('%s: %s %s instead of %s %s' % (desc, r.dtype, r.shape, r0.dtype, r0.shape))
            continue
        # compare in the precision of the loop
        p = loop if loop.itemsize < r.dtype.itemsize else r.dtype
        bad = np.flatnonzero(apart(r.astype(p), r0.astype(p)))
        if len(bad):
            j = int(bad[0])
            fail('%s: %d wrong, first at %d: %r -> %r instead of plain numpy\'s %r' % (desc, len(bad), j, a[j], r[j], r0[j]))
    json.dump({'fails': U.fails, 'counts': U.counts}, open(sys.argv[2], 'w'))


if __name__ == '__main__':
    main()
