"""Tables of the integer operations, computed by TLC from specs/IntSem.tla."""
import json, os, random
import numpy as np
from .core import tla, CheckError

TYPES = {'i1': (1, True), 'u1': (1, False), 'i2': (2, True), 'u2': (2, False), 'i4': (4, True), 'u4': (4, False),
         'i8': (8, True), 'u8': (8, False)}


def alphabet(t, rnd, quick=True):
    b, s = TYPES[t]
    w = 8 * b
    if b == 1:
        return list(range(-128, 128)) if s else list(range(256))
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    v = [0, 1, 2, 3, 7, 10, w - 1, w, w + 1, 127, 128, 255, 256, (1 << (w // 2)) - 1, 1 << (w // 2), hi, hi - 1, hi // 2 + 1, hi // 3]
    if s:
        v += [lo, lo + 1, -1, -2, -3, -7, -128, -129, -(1 << (w // 2)), lo // 2, -w]
    else:
        v += [1 << (w - 1), (1 << (w - 1)) + 1, (1 << (w - 1)) - 1]
    v += [rnd.randint(lo, hi) for _ in range(2 if quick else 6)]
    v = list(dict.fromkeys(v))
    if quick and len(v) > 18:            # keep the extremes, sample the rest
        keep = [x for x in v if x in (0, 1, 2, w - 1, w, hi, lo, -1, 1 << (w - 1), (1 << (w - 1)) - 1)]
        v = keep + rnd.sample([x for x in v if x not in keep], 18 - len(keep))
    return v


def enc(v, b):
    return [(v >> (8 * i)) & 255 for i in range(b)]


def tables(ctx, types, ops2, ops1, check=None):
    """-> (alphabet arrays, {(op, type): (array of results, array of 'defined')}); 8 bits: every value."""
    rnd = random.Random(ctx.seed * 7 + 1)
    out = ctx.path('inttab')
    os.makedirs(out, exist_ok=True)
    al = {}
    for t in types:
        al[t] = alphabet(t, rnd, ctx.quick)
    text = """---- MODULE IntTablesMC ----
EXTENDS IntTables
TypesV == {%s}
AlphV == %s
====
""" % (', '.join('<<"%s", %d, %s>>' % (t, TYPES[t][0], tla(TYPES[t][1])) for t in types),
       ' @@ '.join('("%s" :> %s)' % (t, tla([enc(v, TYPES[t][0]) for v in al[t]])) for t in types))
    cfg = 'SPECIFICATION Spec\nCONSTANT Types <- TypesV\nCONSTANT Alphabet <- AlphV\nCONSTANT Ops2 = %s\nCONSTANT Ops1 = %s\n' \
          'CONSTANT OutDir = "%s"\nCONSTANT Check = %d\nINVARIANT Agree\nINVARIANT LawsHold\nCHECK_DEADLOCK FALSE\n' % (
              tla(set(ops2)) if ops2 else '{}', tla(set(ops1)) if ops1 else '{}', out, check or ctx.pick(29, 1))
    r = ctx.tlc_ok('IntTablesMC', cfg=cfg, files={'IntTablesMC.tla': text})
    ctx.log('IntSem: %d tables computed and checked by TLC in %.1fs' % (r.distinct // 2, r.wall))
    res = {}
    bools = {'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or',
             'logical_not', 'isnan', 'isinf', 'isfinite'}
    arr = {t: np.array(al[t], dtype=t) for t in types}
    for t in types:
        for op in list(ops2) + list(ops1):
            p = os.path.join(out, '%s-%s.json' % (op, t))
            d = json.load(open(p))
            if op in ops2:
                flat = [c for row in d for c in row]
                shape = (len(al[t]),) * 2
            else:
                flat, shape = d, (len(al[t]),)
            dt = np.dtype('?') if op in bools else np.dtype(t)
            ok = np.array([bool(c) for c in flat]).reshape(shape)
            w = dt.itemsize
            raw = bytes(bytearray(x for c in flat for x in (c or [0] * w)))
            res[op, t] = (np.frombuffer(raw, dtype=dt).reshape(shape), ok)
    return arr, res
