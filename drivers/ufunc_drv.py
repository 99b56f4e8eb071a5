"""Replays the call shapes of UfuncScen.tla into the real ufuncs: operands at chosen addresses, strides and overlaps,
values from the alphabets of IntSem/FloatSem, results and surrounding memory compared with the tables TLC computed;
and further types and values against plain NumPy, whose answers are taken before pnumpy is initialised."""
import json, os, random, sys, time
import numpy as np
arg = json.load(open(sys.argv[1]))
from drivers.arena import Arena
np.seterr(all='ignore')
rnd = random.Random(arg['seed'])
rng = np.random.default_rng(arg['seed'])
fails, counts = [], {}
PAD = 96
LENS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 23, 24, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129,
        130, 159, 160, 161, 191, 255, 256, 257, 300, 511, 513, 1000]
MID = [2047, 4096, 8191, 8192, 8193, 10007]
BIG = [65535, 65536, 65537, 65536 + 16384, 65536 + 33, 81921, 100003, 131072 + 16384 + 1]


def fail(what, **k):
    if len(fails) < 12:
        fails.append(dict(what=what, **{a: (b if isinstance(b, (int, str, list, dict, bool, type(None))) else repr(b)[:300]) for a, b in k.items()}))
    counts['failed'] = counts.get('failed', 0) + 1


def tick(k, n=1):
    counts[k] = counts.get(k, 0) + n


TRUTH = bytes([0] + [1] * 255)


def differ(got, exp, anyzero=None, ok=None, truth=False):
    """indices where the results are not the same number; the comparison itself uses no operation under test"""
    got, exp = np.ascontiguousarray(got), np.ascontiguousarray(exp)
    a, b = got.tobytes(), exp.tobytes()
    if got.dtype == bool and truth:
        a, b = a.translate(TRUTH), b.translate(TRUTH)
    if a == b:
        return np.zeros(0, np.intp)
    if got.dtype.char == 'g':
        same = (got == exp) & (np.signbit(got) == np.signbit(exp) if anyzero is None else (anyzero | (np.signbit(got) == np.signbit(exp))))
        same |= np.isnan(got) & np.isnan(exp)
        if ok is not None:
            same |= ~ok
        return np.flatnonzero(~same)
    v = np.dtype('V%d' % got.dtype.itemsize)
    cand = np.flatnonzero(np.frombuffer(a, v) != np.frombuffer(b, v))
    if ok is not None:
        ok = np.ascontiguousarray(np.broadcast_to(ok, got.shape)).tobytes()
        cand = np.array([i for i in cand.tolist() if ok[i]], np.intp)
    if got.dtype.kind == 'f' and len(cand):
        az = None if anyzero is None else np.ascontiguousarray(np.broadcast_to(anyzero, got.shape)).tobytes()
        g, e = got[cand].tolist(), exp[cand].tolist()
        cand = np.array([i for i, x, y in zip(cand.tolist(), g, e)
                         if not ((x != x and y != y) or (x == 0 and y == 0 and az is not None and az[i]))], np.intp)
    return cand


# -------------------------------------------------------------------------------------------------- tables of the specification
class Table:
    def __init__(self, op, t, al, res, ok, anyzero):
        self.op, self.t, self.al, self.res, self.okay, self.anyzero = op, t, al, res, ok, anyzero
        self.f = getattr(np, op)
        self.n2 = res.ndim == 2
        self.nal = len(al)
        self.total = bool(ok.all())
        # integers to negative powers raise: second arguments for which all results are defined
        self.partial = op == 'power' and res.dtype.kind in 'iu'
        self.seconds = np.flatnonzero(ok.all(axis=0)) if self.partial else np.arange(self.nal)

    def pick(self, shape):
        return rng.integers(0, self.nal, shape)

    def expect(self, ix, iy=None):
        q = (ix, iy) if self.n2 else (ix,)
        return self.res[q], (None if self.total else self.okay[q]), (None if self.anyzero is None else self.anyzero[q])


def load_tables(path):
    z = np.load(path)
    out = []
    for k in z.files:
        if k.startswith('res '):
            _, op, t = k.split()
            ok = z['ok %s %s' % (op, t)]
            az = z['az %s %s' % (op, t)] if 'az %s %s' % (op, t) in z.files else None
            out.append(Table(op, t, z['al ' + t], z[k], ok, az))
    return out


AR = None


def arenas():
    global AR
    if AR is None:
        AR = [Arena(24 << 20) for _ in range(3)]
    return AR


class Grid:
    """Cells of one type in an arena: their values are al[I]."""
    def __init__(self, ar, item, cells, place, phase):
        self.ar, self.item, self.cells = ar, item, cells
        nb = cells * item
        if place == 'end':
            self.base = ar.size - nb
        elif place == 'start':
            self.base = 0
        else:
            self.base = PAGE_MID + phase
        self.lo, self.hi = max(0, self.base - PAD), min(ar.size, self.base + nb + PAD)

    def fill(self, tab):
        self.I = tab.pick(self.cells)
        self.ar.buf[self.lo:self.hi] = 0xA5
        self.ar.view(tab.al.dtype, self.cells, self.base, self.item)[:] = tab.al[self.I]

    def image(self):
        return self.ar.buf[self.lo:self.hi]


PAGE_MID = 4096


def layout(n, d):
    """cells used, index of the first element within them"""
    span = (n - 1) * abs(d) + 1 if n else 1
    return span, (0 if d >= 0 else span - 1)


def shift_of(rel, sign, n, vec):
    m = {'same': 0, 'one': 1, 'invec': rnd.randint(2, max(2, vec - 1)), 'vec': vec, 'beyond': rnd.randint(vec + 1, max(vec + 1, min(n, 200))),
         'last': max(n - 1, 0), 'touch': n, 'apart': n + 1}[rel]
    return sign * m


def run_shape(tab, sh, n, with_out, scalar_kind):
    f, item = tab.f, tab.al.dtype.itemsize
    odt = tab.res.dtype
    oit = odt.itemsize
    vec = max(2, 32 // item)
    ars = arenas()
    same = oit == item
    shared = [k for k in ('x', 'y') if not sh[k + 'o']] if tab.n2 else ([] if sh['xo'] else ['x'])
    d = {'x': sh['dx'], 'y': sh['dy']}
    do = sh['do']
    ins = ['x', 'y'] if tab.n2 else ['x']
    # place of each operand in cells
    pos, g = {}, {}
    if shared:
        # out and the shared inputs are in arena 0, in cells of the input type
        oscale = oit  # bytes
        ext = []
        ospan, ofirst = layout(n, do)
        olo, ohi = 0, ospan * oit
        ext = [(olo, ohi)]
        for k in shared:
            s = shift_of(sh[k + 's'][1], sh[k + 's'][0], n, vec)
            span, first = layout(n, d[k])
            # first element of the input is s cells after the first element of the output
            a = ofirst * oit // item + s if same else (ofirst * oit) // item + s
            pos[k] = a
            ext.append(((a - first) * item, (a - first + span) * item))
        lo = min(e[0] for e in ext)
        base_cells = (-lo + item - 1) // item if lo < 0 else 0
        cells = (max(e[1] for e in ext) + item - 1) // item + base_cells
        g0 = Grid(ars[0], item, cells, rnd.choice(['mid', 'mid', 'end', 'start']), rnd.choice([0, 0, item, 3 * item, 1]))
        g0.fill(tab)
        for k in shared:
            pos[k] += base_cells
            g[k] = g0
        obyte = g0.base + base_cells * item + ofirst * oit
        ogrid = g0
    else:
        span, first = layout(n, do)
        ogrid = Grid(ars[0], oit, span, rnd.choice(['mid', 'mid', 'end', 'start']), rnd.choice([0, 0, oit, 3 * oit, 1]))
        ars[0].buf[ogrid.lo:ogrid.hi] = rng.integers(0, 256, ogrid.hi - ogrid.lo, dtype=np.uint8)
        obyte = ogrid.base + first * oit
    views, idx = {}, {}
    for q, k in enumerate(ins):
        if k not in g:
            span, first = layout(n, d[k])
            g[k] = Grid(ars[1 + q], item, span, rnd.choice(['mid', 'mid', 'end', 'start']), rnd.choice([0, 0, item, 5 * item, 1]))
            g[k].fill(tab)
            pos[k] = first
        gr = g[k]
        v = gr.ar.view(tab.al.dtype, n, gr.base + pos[k] * item, d[k] * item)
        i = gr.I[pos[k] + np.arange(n) * d[k]] if n else gr.I[:0]
        if d[k] == 0 and n and scalar_kind != 'stride':
            v0 = v[0]
            if scalar_kind == 'array0':
                v = np.array(v0)
            elif scalar_kind == 'array1':
                v = v[:1]
            else:
                v = v0
        views[k], idx[k] = v, i
    if all(np.ndim(views[k]) == 0 for k in ins) or (n != 1 and all(np.shape(views[k]) in ((), (1,)) for k in ins)):
        views['x'] = g['x'].ar.view(tab.al.dtype, n, g['x'].base + pos['x'] * item, d['x'] * item)
    exp, ok, az = tab.expect(*[idx[k] for k in ins])
    out = ars[0].view(odt, n, obyte, do * oit)
    before = {id(gr): (gr, gr.image().copy()) for gr in list(g.values()) + [ogrid]}
    args = [views[k] for k in ins]
    if with_out:
        r = f(*args, out)
        if r is not out:
            return 'the output array is not returned'
        got = out.copy()
    else:
        got = f(*args)
        if got.dtype != odt or got.shape != (n,):
            return 'result is %s %s instead of %s %s' % (got.dtype, got.shape, odt, (n,))
    bad = differ(got, exp, az, ok)
    if len(bad):
        i = int(bad[0])
        return '%d of %d elements wrong, first at %d: %s(%s) = %r instead of %r' % (
            len(bad), n, i, tab.op, ', '.join(repr(tab.al[idx[k][i]]) for k in ins), got[i], exp[i])
    # everything else is as before
    for gr, im in before.values():
        if with_out and gr is ogrid and n:
            now = gr.image().copy()
            o = np.ndarray((n,), odt, now, obyte - gr.lo, (do * oit,))
            w = np.ndarray((n,), odt, im, obyte - gr.lo, (do * oit,))
            o[:] = w                # hide the output elements
        else:
            now = gr.image()
        if now.tobytes() != im.tobytes():
            b = int(differ(now, im)[0])
            return 'byte %d relative to the operands changed (of %d), outside the output' % (b - (gr.base - gr.lo), len(im))
    return None


def shapes_phase(tabs, shapes, n_small, n_mid, n_big):
    buckets = {}
    for s in shapes:
        buckets.setdefault(json.dumps(s['cls']), []).append(s)
    keys = sorted(buckets)
    for tab in tabs:
        plan = [LENS] * n_small + [MID] * n_mid + [BIG] * n_big
        off = rnd.randrange(len(keys))
        for i, lens in enumerate(plan):
            sh = rnd.choice(buckets[keys[(i + off) % len(keys)]])
            n = rnd.choice(lens)
            with_out = rnd.random() < 0.75 or not (sh['xo'] and sh['yo'])
            sk = rnd.choice(['stride', 'scalar', 'array0', 'array1'])
            if n == 0 and sk != 'stride':
                sk = 'stride'
            progress('%s %s n=%d out=%s scalar=%s %s' % (tab.op, tab.t, n, with_out, sk, json.dumps(sh)))
            try:
                m = run_shape(tab, sh, n, with_out, sk)
            except Exception as e:
                m = 'raised %r' % e
            tick('shape')
            if m:
                fail('%s of %s: %s' % (tab.op, tab.t, m), n=n, shape=sh, out=with_out, scalar=sk)
                if counts['failed'] > 30:
                    return


_pf = open(sys.argv[2] + '.progress', 'w')


def progress(s):
    _pf.seek(0)
    _pf.write(s.ljust(600)[:600])
    _pf.flush()


def every_value(tabs):
    """every pair of the alphabet at every lane"""
    for tab in tabs:
        k = tab.nal
        if tab.n2:
            ix, iy = [a.ravel() for a in np.meshgrid(np.arange(k), tab.seconds, indexing='ij')]
        else:
            ix, iy = np.arange(k), None
        vec = max(2, 32 // tab.al.dtype.itemsize)
        for sh in ([0, 1, 3] if k > 100 and tab.n2 else range(vec)):
            p = np.concatenate([tab.pick(sh), ix])
            a = tab.al[p]
            args, q = [a], [p]
            if tab.n2:
                p2 = np.concatenate([rng.choice(tab.seconds, sh), iy])
                args.append(tab.al[p2])
                q.append(p2)
            got = tab.f(*args)
            exp, ok, az = tab.expect(*q)
            if got.dtype != exp.dtype:
                fail('%s of %s: dtype %s instead of %s' % (tab.op, tab.t, got.dtype, exp.dtype))
                break
            bad = differ(got, exp, az, ok)
            tick('pairs', len(p))
            if len(bad):
                i = int(bad[0])
                fail('%s of %s: %d wrong, first at %d of %d: %r -> %r instead of %r' % (
                    tab.op, tab.t, len(bad), i, len(p), [z[i] for z in args], got[i], exp[i]), shift=sh)
        if tab.n2 and not tab.partial:          # a scalar on either side
            for s in (range(k) if k <= 60 else rng.integers(0, k, 40)):
                n = int(rnd.choice([5, 16, 33, 64, 67, 100]))
                p = tab.pick(n)
                for side in (0, 1):
                    args = [tab.al[p], tab.al[s]] if side else [tab.al[s], tab.al[p]]
                    full = np.full(n, s)
                    exp, ok, az = tab.expect(p, full) if side else tab.expect(full, p)
                    got = tab.f(*args)
                    bad = differ(got, exp, az, ok)
                    tick('scalar', n)
                    if len(bad) or got.dtype != exp.dtype:
                        i = int(bad[0]) if len(bad) else 0
                        fail('%s of %s with a scalar on the %s: %r at %d of %d -> %r %s instead of %r' % (
                            tab.op, tab.t, ['left', 'right'][side], [np.broadcast_to(z, n)[i] for z in args], i, n, got[i], got.dtype, exp[i]))


def lanes_phase(tabs, per):
    """Contiguous operands of every length up to some vectors at every phase of an address, apart and in place, with and
    without a scalar: every way in which the elements can fall into vectors and tails."""
    ars = arenas()
    for tab in tabs:
        dt, odt, item, oit = tab.al.dtype, tab.res.dtype, tab.al.dtype.itemsize, tab.res.dtype.itemsize
        vec = max(2, 32 // item)
        modes = ['apart', 'x'] if not tab.n2 else ['apart', 'x', 'y', 'both', 'square', 'apart', 'xs', 'sy', 'as', 'sa']
        if oit != item:
            modes = [m for m in modes if m in ('apart', 'as', 'sa', 'square')]
        for mode in modes:
            for _ in range(per):
                n = rnd.randrange(1, 4 * vec + 4) if rnd.random() < 0.8 else rnd.randrange(1, 24 * vec)
                ph = [rnd.randrange(0, 64, item if rnd.random() < 0.9 else 1) for _ in range(3)]
                xb, yb, ob = [PAGE_MID + p for p in ph]
                I, J = tab.pick(n), rng.choice(tab.seconds, n) if tab.n2 else None
                x, y, o = ars[0].view(dt, n, xb, item), ars[1].view(dt, n, yb, item), ars[2].view(odt, n, ob, oit)
                for ar in ars:
                    ar.buf[PAGE_MID - 64:PAGE_MID + 128 + n * max(item, oit) + 64] = 0x5A
                x[:] = tab.al[I]
                if tab.n2:
                    y[:] = tab.al[J]
                if mode in ('both', 'square'):
                    y, J = x, I
                if mode in ('xs', 'as'):
                    J = np.full(n, J[0])
                    y = tab.al[J[0]] if rnd.random() < .5 else tab.al[J[:1]]
                if mode in ('sy', 'sa'):
                    I = np.full(n, I[0])
                    x = tab.al[I[0]] if rnd.random() < .5 else tab.al[I[:1]]
                if mode in ('x', 'both', 'xs'):
                    o, oar = x.view(odt), 0
                elif mode in ('y', 'sy'):
                    o, oar = y.view(odt), 1
                else:
                    oar = 2
                exp, ok, az = tab.expect(I, J) if tab.n2 else tab.expect(I)
                hi = PAGE_MID + 128 + n * max(item, oit) + 64
                before = [ar.buf[PAGE_MID - 64:hi].tobytes() for ar in ars]
                ob = [xb, yb, ob][oar] - (PAGE_MID - 64)
                progress('%s %s lanes %s n=%d phases %s' % (tab.op, tab.t, mode, n, ph))
                tick('lanes')
                try:
                    tab.f(*([x, y] if tab.n2 else [x]), out=o)
                except Exception as e:
                    fail('%s of %s, %s, n=%d: raised %r' % (tab.op, tab.t, mode, n, e))
                    continue
                bad = differ(o, exp, az, ok)
                if len(bad):
                    i = int(bad[0])
                    fail('%s of %s, %s, n=%d: %d wrong, first at %d: %r, %r -> %r instead of %r' % (
                        tab.op, tab.t, mode, n, len(bad), i, tab.al[I[i]], tab.al[J[i]] if tab.n2 else None, o[i], exp[i]), phases=ph)
                    continue
                for k, ar in enumerate(ars):
                    now, was = ar.buf[PAGE_MID - 64:hi].tobytes(), before[k]
                    if k == oar:
                        now = now[:ob] + was[ob:ob + n * oit] + now[ob + n * oit:]
                    if now != was:
                        fail('%s of %s, %s, n=%d: memory outside the output changed' % (tab.op, tab.t, mode, n), phases=ph)


def shapes_nd(tabs, count):
    """more dimensions: transposed, sliced, reversed and broadcast operands, masks"""
    for tab in tabs:
        for _ in range(count):
            nd = rnd.choice([2, 2, 2, 3, 4])
            shape = tuple(rnd.choice([1, 2, 3, 5, 8, 17, 33, 70]) if nd == 2 else rnd.choice([1, 2, 3, 4, 9]) for _ in range(nd))

            def mk(allow_bc=True):
                sh = list(shape)
                if allow_bc:
                    for j in range(nd):
                        if rnd.random() < 0.2:
                            sh[j] = 1
                    while len(sh) > 1 and sh[0] == 1 and rnd.random() < 0.5:
                        sh.pop(0)
                big = [s * rnd.choice([1, 1, 2]) + rnd.choice([0, 0, 1, 3]) for s in sh]
                perm = list(range(len(sh)))
                rnd.shuffle(perm)
                b = np.empty([big[p] for p in perm], dtype=object if False else np.int64)
                return sh, big, perm

            def cut(a, sh, big, perm, how):
                a = a.transpose(np.argsort(perm))
                return a[tuple(how)]

            def view_plan(sh, big):
                how = []
                for s, b in zip(sh, big):
                    step = 2 if b >= 2 * s and rnd.random() < 0.6 else 1
                    o = rnd.randrange(0, b - ((s - 1) * step + 1) + 1)
                    if rnd.random() < 0.3 and s > 1:
                        last = o + (s - 1) * step
                        how.append(slice(last, (o - 1) if o > 0 else None, -step))
                    else:
                        how.append(slice(o, o + (s - 1) * step + 1, step))
                return how
            args, q = [], []
            for _k in range(2 if tab.n2 else 1):
                sh, big, perm = mk()
                how = view_plan(sh, big)
                I = tab.pick([big[p] for p in perm])
                args.append(cut(tab.al[I], sh, big, perm, how))
                q.append(cut(I, sh, big, perm, how))
            q = np.broadcast_arrays(*q) if tab.n2 else q
            oshape = q[0].shape
            exp, ok, az = tab.expect(*q)
            mode = rnd.choice(['new', 'out', 'out', 'where'])
            kw = {}
            outbig = None
            if mode != 'new':
                sh = list(oshape)
                big = [s * rnd.choice([1, 1, 2]) + rnd.choice([0, 0, 1, 3]) for s in sh]
                perm = list(range(len(sh)))
                rnd.shuffle(perm)
                outbig = np.frombuffer(rng.integers(0, 2 if exp.dtype == bool else 256, int(np.prod(big)) * exp.dtype.itemsize, dtype=np.uint8).tobytes(), dtype=exp.dtype).copy().reshape([big[p] for p in perm])
                before = outbig.copy()
                how = view_plan(sh, big)
                kw['out'] = cut(outbig, sh, big, perm, how)
                if mode == 'where':
                    kw['where'] = rng.random(oshape) < rnd.choice([0.1, 0.5, 0.9])
            progress('%s %s nd %s %s %s' % (tab.op, tab.t, shape, mode, [a.strides for a in args]))
            try:
                got = tab.f(*args, **kw)
            except Exception as e:
                fail('%s of %s, %s: raised %r' % (tab.op, tab.t, oshape, e))
                continue
            tick('nd')
            w = kw.get('where')
            if got.shape != oshape or got.dtype != exp.dtype:
                fail('%s of %s: shape %s dtype %s instead of %s %s' % (tab.op, tab.t, got.shape, got.dtype, oshape, exp.dtype))
                continue
            sel = (lambda a: a.ravel()) if w is None else (lambda a: a[w])
            bad = differ(sel(got), sel(exp), None if az is None else sel(az), None if ok is None else sel(ok))
            if len(bad):
                i = int(bad[0])
                fail('%s of %s, shape %s, %s: %d elements wrong, first %d: %r instead of %r, arguments %r' % (
                    tab.op, tab.t, oshape, mode, len(bad), i, sel(got)[i], sel(exp)[i], [sel(np.broadcast_to(a, oshape))[i] for a in args]),
                    strides=str([a.strides for a in args]))
            elif outbig is not None:
                o = cut(outbig, sh, big, perm, how)
                b = cut(before, sh, big, perm, how)
                if w is None:
                    o[...] = b
                else:
                    o[w] = b[w]
                if outbig.tobytes() != before.tobytes():
                    fail('%s of %s, shape %s, %s: memory outside the output changed' % (tab.op, tab.t, oshape, mode), strides=str(kw['out'].strides))


# -------------------------------------------------------------------------------------------------- recorded memory images
def record_traces(count, path):
    """Calls and accumulates on a small shared memory of 8 bit integers, recorded for UfuncTrace.tla."""
    ops = ['add', 'subtract', 'multiply', 'minimum', 'maximum', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'left_shift', 'right_shift',
           'floor_divide', 'remainder', 'power']
    ar = arenas()[0]
    f = open(path, 'w')
    for k in range(count):
        op = rnd.choice(ops if k % 4 else ops[:8])
        sg = rnd.random() < 0.5
        dt = np.dtype('i1' if sg else 'u1')
        size = rnd.choice([24, 60, 150])
        base = rnd.choice([0, 4096 + rnd.randrange(64), ar.size - size])
        m = rng.integers(0, 256, size, dtype=np.uint8)
        if op in ('left_shift', 'right_shift', 'power'):
            m = np.where(rng.random(size) < 0.7, m % 9, m % 128).astype(np.uint8)
        ar.buf[base:base + size] = m
        n = rnd.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12] + ([16, 17, 31, 32, 33, 40, 64, 65, 70] if size == 150 else []))

        def operand(ds):
            while True:
                d = rnd.choice(ds)
                span = (n - 1) * abs(d) + 1 if n else 1
                if span <= size:
                    lo = rnd.randrange(0, size - span + 1)
                    return {'a': lo if d >= 0 else lo + span - 1, 'd': d}
        o = operand([1, 1, 1, -1, 2, -2, 3])
        kind = rnd.choice(['call', 'call', 'acc'])
        near = lambda: (dict(o) if rnd.random() < 0.3 else operand([1, 1, -1, 2, -2, 0, 3] if kind == 'call' else [1, 1, -1, 2]))
        x, y = near(), near()
        if kind == 'acc' and op in ('power', 'left_shift', 'right_shift', 'floor_divide', 'remainder'):
            kind = 'call'
        V = lambda q: ar.view(dt, n, base + q['a'], q['d'])
        u = getattr(np, op)
        progress('trace %s %s n=%d %s %s %s' % (kind, op, n, x, y, o))
        try:
            if kind == 'call':
                u(V(x), V(y), out=V(o))
            else:
                u.accumulate(V(x), out=V(o))
        except Exception as e:
            fail('%s.%s raised %r' % (op, kind, e), n=n, x=x, y=y, o=o)
            continue
        after = ar.buf[base:base + size].view(dt)
        f.write(json.dumps({'kind': kind, 'op': op, 'sg': bool(sg), 'n': n, 'x': x, 'y': y, 'o': o, 'before': m.view(dt).tolist(), 'after': after.tolist()}) + '\n')
        tick('traces')
    f.close()


# -------------------------------------------------------------------------------------------------- accumulate
ACC = ['add', 'subtract', 'multiply', 'true_divide', 'floor_divide', 'remainder', 'minimum', 'maximum', 'bitwise_and', 'bitwise_or', 'bitwise_xor',
       'logical_and', 'logical_or', 'equal', 'not_equal', 'less', 'greater', 'left_shift', 'right_shift', 'fmax', 'less_equal', 'greater_equal']


def acc_tables(tabs, count):
    """accumulate on 8 bit integers: the fold by the table of the specification"""
    for tab in tabs:
        if tab.t not in ('i1', 'u1') or not tab.n2 or not tab.total or tab.res.dtype != tab.al.dtype:
            continue
        back = {int(v): i for i, v in enumerate(tab.al)}
        nxt = np.array([[back[int(v)] for v in row] for row in tab.res])
        for _ in range(count):
            n = rnd.choice(LENS[1:])
            d = rnd.choice([1, 1, 2, -1, 3])
            I = tab.pick(n * abs(d))[::d][:n]
            a = np.repeat(tab.al[I], abs(d))[::abs(d)] if rnd.random() < .5 else tab.al[I]
            e = [I[0]]
            for j in I[1:]:
                e.append(nxt[e[-1], j])
            exp = tab.al[np.array(e)]
            mode = rnd.choice(['new', 'out', 'inplace'])
            if mode == 'new':
                got = tab.f.accumulate(a, dtype=a.dtype)
            else:
                out = a.copy() if mode == 'out' else a
                got = tab.f.accumulate(a, dtype=a.dtype, out=out)
            tick('accumulate')
            if got.dtype != exp.dtype or got.shape != exp.shape or len(differ(got, exp)):
                i = int(differ(got, exp)[0]) if got.shape == exp.shape else 0
                fail('%s.accumulate of %s n=%d %s: element %d is %r instead of %r' % (tab.op, tab.t, n, mode, i, got[i], exp[i]))


def overlap_case(seed, spec=False):
    """A call, accumulate or in-place update on one shared buffer: the bytes of the buffer afterwards.
    spec: the inputs are copied first, so that the output cannot change them."""
    C = (lambda v: v.copy() if isinstance(v, np.ndarray) else v) if spec else (lambda v: v)
    global rng, rnd
    keep = rng, rnd
    rng, rnd = np.random.default_rng(seed), random.Random(seed)
    try:
        kind = rnd.choice(['acc', 'acc', 'acc', 'bin', 'bin', 'un', 'inplace', 'acc2', 'at'])
        n = rnd.choice(LENS + MID) if rnd.random() < 0.93 else rnd.choice(BIG)
        t = np.dtype(rnd.choice(MIX[:15]))
        full = rand_values(t, 3 * n + 80)
        if t.kind == 'f' and rnd.random() < 0.5:
            full = rng.standard_normal(3 * n + 80).astype(t)
        guard = rng.integers(0, 2 if t.kind == 'b' else 256, 3 * n * t.itemsize + 80 * t.itemsize, dtype=np.uint8)

        def view(k=None):
            d = rnd.choice([1, 1, 1, 2, -1, -2, 3])
            o = rnd.choice([0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 64])
            v = full[o:o + max(n, 0) * abs(d)][::d] if d > 0 else full[o:o + n * -d][::d]
            return v[:n], o, d
        x, xo, xd = view()
        y, yo, yd = view()
        o, oo, od = view()
        m = min(len(x), len(y), len(o))
        x, y, o = x[:m], y[:m], o[:m]
        op = rnd.choice(ACC)
        u = getattr(np, op)
        desc = '%s %s %s n=%d x=%d,%d y=%d,%d o=%d,%d' % (kind, op, t, m, xo, xd, yo, yd, oo, od)
        try:
            with np.errstate(all='ignore'):
                if kind == 'acc':
                    if rnd.random() < 0.5:
                        r = u.accumulate(x)
                    else:
                        r = u.accumulate(C(x), out=o, dtype=t)
                elif kind == 'acc2':
                    k = rnd.choice([1, 2, 3, 8, 17])
                    a = full[:(len(full) // k) * k].reshape(-1, k)
                    if rnd.random() < .5:
                        a = a.T
                    if rnd.random() < .3:
                        a = a[::2, ::-1]
                    ax = rnd.choice([0, 1, -1])
                    r = u.accumulate(C(a), axis=ax, **({'out': a, 'dtype': t} if rnd.random() < .4 else {}))
                    desc += ' shape %s axis %d' % (a.shape, ax)
                elif kind == 'bin':
                    r = u(C(x), C(y), out=o, casting='unsafe')
                elif kind == 'un':
                    op = rnd.choice(['negative', 'absolute', 'sign', 'square', 'sqrt', 'floor', 'rint', 'invert', 'logical_not', 'isnan', 'reciprocal', 'signbit', 'ceil', 'trunc', 'isfinite'])
                    desc = desc.replace('un ', 'un ' + op + ' ')
                    r = getattr(np, op)(C(x), out=o, casting='unsafe')
                elif kind == 'at':
                    k = min(len(x), 500)
                    u.at(full, rng.integers(0, len(full), k), x[:k].copy())
                    r = full
                else:
                    s = rnd.choice([x, y, full[0], 2, full[:1]])
                    r = u(C(o), C(s), out=o, casting='unsafe')
        except Exception as e:
            return desc, type(e).__name__, full
        return desc, np.array(r), full
    finally:
        rng, rnd = keep


def overlap_phase(refs, base):
    for i, ref in enumerate(refs):
        if ref is None:
            tick('overlap left out')
            continue
        desc, r0, f0 = ref
        progress('overlap %d %s' % (i, desc))
        d, r, f = overlap_case(base + i)
        tick('overlap')
        if isinstance(r, str) or isinstance(r0, str):
            if not (isinstance(r, str) and isinstance(r0, str)):
                fail('%s: %r instead of %r' % (desc, r, r0))
            continue
        mm = 'imum' in desc or 'fmax' in desc or 'add' in desc or 'subtract' in desc
        for w, a, b in (('result', r0, r), ('memory', f0, f)):
            if a.dtype != b.dtype or a.shape != b.shape:
                fail('%s: %s is %s %s instead of %s %s' % (desc, w, b.dtype, b.shape, a.dtype, a.shape))
                break
            bad = differ(b.ravel(), a.ravel(), np.ones(a.size, bool) if 'imum' in desc or 'fmax' in desc else None, truth=True)
            if len(bad):
                fail('%s: %s differs from plain numpy in %d elements, first %d: %r instead of %r' % (
                    desc, w, len(bad), bad[0], b.ravel()[bad[0]], a.ravel()[bad[0]]))
                break


# -------------------------------------------------------------------------------------------------- plain NumPy
def rand_values(dt, n, odd=False):
    dt = np.dtype(dt)
    k = dt.kind
    if k == 'b':
        if odd and rng.random() < 0.3:          # any byte but 0 is true
            return np.where(rng.random(n) < 0.5, np.uint8(0), rng.integers(0, 256, n).astype(np.uint8)).view(bool)
        return rng.integers(0, 2, n).astype(bool)
    if k in 'iu':
        ii = np.iinfo(dt)
        m = rng.integers(0, 4, n)
        full = np.frombuffer(rng.bytes(n * dt.itemsize), dtype=dt).copy()
        small = rng.integers(0, 20, n).astype(dt)
        if k == 'i':
            small = (small - dt.type(7)).astype(dt)
        ext = np.array([ii.max, ii.min, 0, 1, ii.max - 1, ii.min + 1], dtype=dt)[rng.integers(0, 6, n)]
        return np.where(m == 0, ext, np.where(m == 1, small, full))
    fi = np.finfo(dt)
    m = rng.integers(0, 6, n)
    with np.errstate(all='ignore'):
        norm = rng.standard_normal(n).astype(dt)
        ints = rng.integers(-9, 10, n).astype(dt) * dt.type(0.5)
        span = {2: 10, 4: 120, 8: 900}.get(dt.itemsize, 3000)
        wide = np.ldexp(norm, rng.integers(-span, span, n)).astype(dt)
        sub = (rng.integers(0, 50, n).astype(dt) * fi.smallest_subnormal).astype(dt) * np.where(rng.random(n) < .5, dt.type(-1), dt.type(1))
        spec = np.array([np.nan, np.inf, -np.inf, 0.0, -0.0, fi.max, -fi.max, fi.tiny, fi.eps, 1 + fi.eps, -1], dtype=dt)[rng.integers(0, 11, n)]
        half = (np.floor(wide) + dt.type(0.5)).astype(dt)
    return np.choose(m, [norm, ints, wide, sub, spec, half]).astype(dt)


MIX = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'f2', 'f4', 'f8', 'g', '>i4', '>f8']


# plain NumPy compares the last booleans of an array byte by byte, and the others not: left to BoolTables
BYTEWISE = ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'bitwise_xor', 'logical_xor')


def ref_case(op, seed):
    """One call with random types, layouts and values; a function of the seed only."""
    global rng, rnd
    keep = rng, rnd
    rng, rnd = np.random.default_rng(seed), random.Random(seed)
    try:
        f = getattr(np, op)
        n = rnd.choice(LENS + MID) if rnd.random() < 0.9 else rnd.choice(BIG)
        same = rnd.random() < 0.5
        t1 = rnd.choice(MIX)
        t2 = t1 if same else rnd.choice(MIX)
        args = []
        for t in ([t1, t2] if f.nin == 2 else [t1]):
            st = rnd.choice([1, 1, 1, 2, 3, -1, -2])
            a = rand_values(np.dtype(t).newbyteorder('='), n * abs(st) + 5, op not in BYTEWISE).astype(t)
            o = rnd.choice([0, 0, 1, 3])
            a = a[o:o + n * abs(st)][::st][:n]
            args.append(a)
        if f.nin == 2:
            r = rnd.random()
            if r < 0.15:
                args[0] = args[0][:1]
            elif r < 0.3:
                args[1] = args[1][:1]
            elif r < 0.35 and n:
                args[1] = args[1][0]
            elif r < 0.4 and n:
                args[0] = args[0][0]
            elif r < 0.5:
                args[1] = rnd.choice([0, 1, 2, -1, 3, 2.5, 100]) if rnd.random() < 0.7 else rnd.choice([True, float('nan'), 2.0 ** 70])
        kw = {}
        r = rnd.random()
        if r < 0.08:
            kw['dtype'] = rnd.choice(['f4', 'f8', 'i8', 'i4', 'u1'])
            kw['casting'] = 'unsafe'
        elif r < 0.2:
            kw['out'] = np.zeros(np.broadcast(*args).shape if f.nin == 2 else args[0].shape, dtype=rnd.choice(['f8', 'f4', 'i8', 'i4', 'i2', '?', 'g']))
            kw['casting'] = 'unsafe'
        desc = '%s %s%s n=%d %s' % (op, [getattr(a, 'dtype', type(a)) for a in args], [getattr(a, 'strides', a) for a in args], n, {k: str(getattr(v, 'dtype', v)) for k, v in kw.items()})
        try:
            with np.errstate(all='ignore'):
                res = f(*args, **kw)
        except Exception as e:
            return desc, type(e).__name__, args
        return desc, res, args
    finally:
        rng, rnd = keep


def compare_ref(desc, a, b, args, minmax):
    if isinstance(a, str) or isinstance(b, str):
        if not (isinstance(a, str) and isinstance(b, str) and a == b):
            fail('%s: %r instead of %r' % (desc, b if isinstance(b, str) else 'a result', a if isinstance(a, str) else 'a result'))
        return
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        fail('%s: %s %s instead of %s %s' % (desc, b.dtype, b.shape, a.dtype, a.shape))
        return
    az = np.ones(a.shape, bool).ravel() if minmax else None
    bad = differ(b.ravel(), a.ravel(), az)
    if len(bad):
        i = int(bad[0])
        v = []
        for x in args:
            try:
                v.append(np.broadcast_to(x, a.shape).ravel()[i])
            except Exception:
                v.append(x)
        fail('%s: %d wrong, first at %d: %r -> %r instead of plain numpy\'s %r' % (desc, len(bad), i, v, b.ravel()[i], a.ravel()[i]))


def main():
    ops = arg['ops']
    nref = arg.get('refs', 0)
    base = arg['seed'] * 1000003
    refs = []
    for i in range(nref):
        op = ops[i % len(ops)]
        desc, r, _ = ref_case(op, base + i)
        refs.append((desc, r))
    overs = []
    for i in range(arg.get('overlap', 0)):
        # where plain NumPy's answer depends on the overlap (signbit of integers does) there is nothing to compare with
        a, b = overlap_case(base + 500000 + i), overlap_case(base + 500000 + i, True)
        overs.append(a if type(a[1]) is type(b[1]) and a[2].tobytes() == b[2].tobytes() else None)
    import pnumpy as pn
    pn.initialize()
    if arg.get('workers') is not None:
        pn.thread_setworkers(arg['workers'])
    if not arg.get('threads', True):
        pn.thread_disable()
    for i in range(nref):
        op = ops[i % len(ops)]
        progress('reference %d %s' % (i, refs[i][0]))
        desc, r, a = ref_case(op, base + i)
        tick('reference')
        compare_ref(desc, refs[i][1], r, a, op in ('minimum', 'maximum'))
        refs[i] = None
    del refs
    overlap_phase(overs, base + 500000)
    del overs
    if arg.get('traces'):
        record_traces(arg['traces'], arg['trace_file'])
    if arg.get('tables'):
        tabs = [t for t in load_tables(arg['tables']) if [t.op, t.t] in arg['only']]
        sc = json.load(open(arg['scen']))
        if arg.get('every'):
            every_value(tabs)
        tabs = [t for t in tabs if not t.partial]
        a, b, c = arg.get('apart', [0, 0, 0])
        if a + b + c:
            shapes_phase(tabs, sc['apart'], a, b, c)
        a, b, c = arg.get('shared', [0, 0, 0])
        if a + b + c:
            shapes_phase(tabs, sc['shared'], a, b, c)
        if arg.get('acc'):
            acc_tables(tabs, arg['acc'])
        if arg.get('lanes'):
            lanes_phase(tabs, arg['lanes'])
        if arg.get('nd'):
            shapes_nd(tabs, arg['nd'])
    json.dump({'fails': fails, 'counts': counts}, open(sys.argv[2], 'w'))


if __name__ == '__main__':
    main()
