"""Tables of the floating point operations, computed by TLC from specs/FloatSem.tla."""
import json, os
from fractions import Fraction
import numpy as np


def number(c, dt):
    k, s, n, d = c
    dt = np.dtype(dt)
    if k == 'bool':
        return np.bool_(n)
    fi = np.finfo(dt)
    v = {'nan': np.nan, 'inf': np.inf, 'zero': 0.0, 'undef': 0.0}.get(k)
    if k == 'tiny':
        v = fi.smallest_subnormal
    elif k == 'huge':
        v = fi.max
    elif k == 'fin':
        v = Fraction(n, d)
        v = float(v) if dt != np.longdouble else np.longdouble(n) / np.longdouble(d)
    v = dt.type(v)
    return -v if s == 1 else v


def tables(ctx, ops2, ops1, types=('f4', 'f8')):
    """-> {type: alphabet}, {(op, type): (results, defined, zero of any sign)}"""
    out = ctx.path('floattab')
    os.makedirs(out, exist_ok=True)
    s = lambda x: '{' + ', '.join('"%s"' % o for o in x) + '}'
    cfg = 'SPECIFICATION Spec\nCONSTANT Ops2 = %s\nCONSTANT Ops1 = %s\nCONSTANT OutDir = "%s"\nINVARIANT LawsHold\nCHECK_DEADLOCK FALSE\n' % (s(ops2), s(ops1), out)
    r = ctx.tlc_ok('FloatTables', cfg=cfg)
    ctx.log('FloatSem: %d tables computed and checked by TLC in %.1fs' % (r.distinct // 2, r.wall))
    al, res = {}, {}
    for op in list(ops2) + list(ops1):
        d = json.load(open(os.path.join(out, 'f-%s.json' % op)))
        for t in types:
            if t not in al:
                al[t] = np.array([number(c, t) for c in d['alphabet']], dtype=t)
            tab = d['table']
            flat = [c for row in tab for c in row] if op in ops2 else tab
            shape = (len(tab),) * 2 if op in ops2 else (len(tab),)
            odt = '?' if any(c[0] == 'bool' for c in flat) else t
            res[op, t] = (np.array([number(c, t) for c in flat], dtype=odt).reshape(shape),
                          np.array([c[0] != 'undef' for c in flat]).reshape(shape),
                          np.array([c[1] == 2 for c in flat]).reshape(shape))
    return al, res
