"""Operations of the real module with the ledger on, off and switched between and during them: results, records, state.
Records are what the module writes to its standard output, read after every call; recorded histories for LedgerTrace.tla."""
import ctypes, itertools, json, os, random, re, sys, tempfile, threading, time, warnings
arg = json.load(open(sys.argv[1]))
tmp = tempfile.TemporaryFile()
os.dup2(tmp.fileno(), 1)
import numpy as np
warnings.simplefilter('ignore')
import pnumpy as pn
import pnumpy._pnumpy as raw
pn.initialize()
libc = ctypes.CDLL(None)
sys.setswitchinterval(100)
fails, counts, seen_pos = [], {}, [0]
_pf = open(sys.argv[2] + '.progress', 'w')


def progress(s):
    _pf.seek(0)
    _pf.write(s.ljust(600)[:600])
    _pf.flush()


def fail(what, **k):
    if len(fails) < 12:
        fails.append(dict(what=what, **k))
    counts['failed'] = counts.get('failed', 0) + 1


def tick(k, n=1):
    counts[k] = counts.get(k, 0) + n


LINE = re.compile(r'^\s*-?\d+\s+len:\s*(-?\d+)\s+(.*?),\s*(.*?),\s*(.*?)\s*$')


def records():
    """what was written since the last call"""
    libc.fflush(None)
    end = os.fstat(tmp.fileno()).st_size
    text = os.pread(tmp.fileno(), end - seen_pos[0], seen_pos[0]).decode('latin1')
    seen_pos[0] = end
    out = []
    for l in text.splitlines():
        m = LINE.match(l)
        out.append(dict(len=int(m.group(1)), op=m.group(2), type=m.group(3), cat=m.group(4)) if m else dict(len=-1, op='?' + l[:80], type='', cat=''))
    return out


rnd = random.Random(arg['seed'])
if arg.get('workers') is not None:
    raw.thread_setworkers(arg['workers'])
raw.thread_enable() if arg.get('threads', True) else raw.thread_disable()
CH = '?bBhHiIlLqQfd'
TYPES = ['bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'int64', 'uint64', 'float32', 'float64']
CMP = {'equal', 'not_equal', 'greater', 'greater_equal', 'less', 'less_equal'}
TRIG = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'cbrt', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p'}
ALIAS = [{'invert', 'bitwise_not'}, {'abs', 'absolute'}]
KEYS = [k for k in raw.atop_info().keys() if hasattr(np, k[0])]


def names(u):
    for a in ALIAS:
        if u in a:
            return sorted(a)
    return [u]


def data(t, n, r):
    d = np.dtype(CH[t])
    if d.kind == '?' or t == 0:
        a = [r.random() < 0.5 for _ in range(min(n, 64))]
    elif d.kind in 'iu':
        ii = np.iinfo(d)
        a = [r.choice([0, 1, 3, ii.max, ii.min, r.randint(int(ii.min), int(ii.max)), r.randint(0, 20)]) for _ in range(min(n, 64))]
    else:
        a = [r.choice([0.0, -0.0, 1.0, -1.5, float('nan'), float('inf'), -float('inf'), 1e30, 1e-30, r.uniform(-5, 5), r.uniform(-1, 1)]) for _ in range(min(n, 64))]
    a = np.array(a, d)
    return np.resize(a, n) if n else a[:0]


def key(r):
    """an outcome as something which compares"""
    if isinstance(r, tuple) and r and r[0] == 'error':
        return r
    if isinstance(r, tuple):
        return tuple(map(key, r))
    a = np.asarray(r)
    return (str(a.dtype), a.shape, a.tobytes())


def outcome(f):
    try:
        return key(f())
    except Exception as e:
        return ('error', type(e).__name__, str(e))


def ev(call, rec, **k):
    e = dict(call=call, rec=rec, same=True, names=[], type='', cats=[], loops=0, total=[0], answer=False)
    e.update(k)
    return e


def operation(r):
    """an operation of one inner loop: (text, function, what its record must say)"""
    n = r.choice([1, 2, 7, 31, 64, 70, 1000, 5000] + [70001] * (r.random() < 0.2))
    x = r.random()
    if x < 0.72:
        u, t = r.choice(KEYS)
        f = getattr(np, u)
        d = data(t, n * 2, r)
        lay = r.choice(['c', 'c', 's', 'r', 'b', 'o'])
        a = {'c': d[:n], 's': d[::2], 'r': d[:n][::-1]}.get(lay, d[:n])
        b = a.dtype.type(1 if not u.endswith('shift') else 3) if lay == 'b' and n > 1 else data(t, n, r)
        sp = dict(names=names(u), type=TYPES[t], cats=['Compare'] if u in CMP else ['TrigLog'] if u in TRIG else ['Unary'] if f.nin == 1 else ['Binary'], loops=1, total=[n])
        if f.nin == 2 and n == 1:
            sp['cats'] = sp['cats'] + ['Reduce']     # one item: the strides do not tell
        k = dict(dtype=None)
        g = (lambda: f(a)) if f.nin == 1 else (lambda: f(a, b))
        if lay == 'o' and u not in CMP:
            c = a.copy()
            g = (lambda: f(a, out=np.empty_like(f(a[:0]), shape=n))) if f.nin == 1 else (lambda: f(a, b, out=np.empty(n, f(a[:0], b[:0]).dtype)))
        # a comparison or test of another type than the loop's: the loop of atop_info is found by the input type, always
        return '%s %s n=%d %s' % (u, CH[t], n, lay), g, sp
    if x < 0.82:
        u = r.choice(['add', 'multiply', 'minimum', 'maximum', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'logical_or', 'logical_and'])
        ts = [t for (v, t) in KEYS if v == u and t != 0 or v == u and u.startswith('logical') and t == 0]
        t = r.choice(ts)
        n = max(n, 3)
        a = data(t, n, r)
        f = getattr(np, u)
        return '%s.reduce %s n=%d' % (u, CH[t], n), (lambda: f.reduce(a, dtype=a.dtype)), dict(names=[u], type=TYPES[t], cats=['Reduce'], loops=1, total=[n, n - 1])
    n = max(n, 3)
    t = r.randrange(1, 13)
    a = data(t, n, r)
    if x < 0.86:
        kind = r.choice(['quicksort', 'stable', 'heapsort'])
        return 'sort %s %s n=%d' % (kind, CH[t], n), (lambda: np.sort(a, kind=kind)), dict(names=['ledger2', 'sort'], type=TYPES[t], cats=['Sort'], loops=1, total=[n])
    if x < 0.90:
        return 'argsort %s n=%d' % (CH[t], n), (lambda: np.argsort(a, kind='stable')), dict(names=['ledger2', 'argsort'], type=TYPES[t], cats=['ArgSort'], loops=1, total=[n])
    if x < 0.95:
        w = r.choice(['argmax', 'argmin'])
        return '%s %s n=%d' % (w, CH[t], n), (lambda: getattr(a, w)()), dict(names=['ledger2', w], type=TYPES[t], cats=['ArgMinMax'], loops=1, total=[n])
    if t in (1, 2):
        n = min(n, 100)
    return 'arange %s n=%d' % (CH[t], n), (lambda: np.arange(n, dtype=CH[t])), dict(names=['ledger2', 'arange'], type=TYPES[t], cats=['Arange'], loops=1, total=[n])


BAD = [('true_divide', lambda: np.true_divide(np.ones(9), np.zeros(9))), ('sqrt', lambda: np.sqrt(-np.ones(9))), ('log', lambda: np.log(np.zeros(12))), ('multiply', lambda: np.multiply(np.full(40, 1e300), np.full(40, 1e300))),
       ('floor_divide', lambda: np.floor_divide(np.ones(9, 'i4'), np.zeros(9, 'i4'))), ('add', lambda: np.add(np.ones(3), np.ones(4))), ('add', lambda: np.add(np.ones(3), 'x')), ('sort', lambda: np.sort(np.ones(3), axis=4)),
       ('reduce', lambda: np.add.reduce(np.ones(3), axis=7)), ('out', lambda: np.add(np.ones(3), np.ones(3), out=np.ones(3, 'i4'))), ('argmax', lambda: np.array([], 'f8').argmax()), ('sortobj', lambda: np.sort(np.array([1, 'a', None], object))),
       ('arange', lambda: np.arange(0, 1, 0)), ('object', lambda: np.add(np.array([1, 'a'], object), 1))]


def bad(f):
    with np.errstate(all='raise'):
        return outcome(f)


trace = open(arg['trace_file'], 'w')


def reset():
    raw.ledger_disable()
    records()


def check_state(h):
    if raw.ledger_isenabled():
        raw.ledger_disable()


def play(hist):
    """a history [call, answer], answers from LedgerGen"""
    reset()
    out = []
    long_t = None
    for c, want in hist:
        if c == 'enable':
            raw.ledger_enable()
            out.append(ev(c, records()))
        elif c == 'disable':
            raw.ledger_disable()
            out.append(ev(c, records()))
        elif c == 'info':
            raw.ledger_info()
            out.append(ev(c, records()))
        elif c == 'ask':
            a = raw.ledger_isenabled()
            out.append(ev(c, records(), answer=bool(a)))
            if a != (want == 'yes'):
                fail('ledger_isenabled answers %s (%s)' % (a, hist), history=hist)
                return None
        elif c == 'op':
            what, f, sp = operation(rnd)
            progress(what)
            on = raw.ledger_isenabled()
            got = outcome(f)
            rec = records()
            e = ev(c, rec, what=what, **sp)
            raw.ledger_disable()
            ref = outcome(f)
            if records():
                fail('%s is recorded while the ledger is off (%s)' % (what, hist), history=hist)
                return None
            if on:
                raw.ledger_enable()
            tick('operations')
            if got != ref:
                e['same'] = False
                fail('%s: another result in the history %s with the ledger %s' % (what, [x for x, _ in hist], 'on' if on else 'off'), history=hist, op=what)
                return None
            good = all(r['op'] in sp['names'] and r['type'] == sp['type'] and r['cat'] in sp['cats'] for r in rec) and len(rec) == sp['loops'] and sum(r['len'] for r in rec) in sp['total']
            if want == 'own' and not good:
                fail('%s is recorded as %s (expected %s, history %s)' % (what, rec, sp, [x for x, _ in hist]), history=hist, op=what)
                return None
            if want == 'none' and rec:
                fail('%s is recorded while the ledger is off: %s (history %s)' % (what, rec, [x for x, _ in hist]), history=hist, op=what)
                return None
            out.append(e)
        elif c == 'bad':
            w, f = rnd.choice(BAD)
            progress('bad ' + w)
            on = raw.ledger_isenabled()
            got = bad(f)
            rec = records()
            raw.ledger_disable()
            ref = bad(f)
            rec2 = records()
            if on:
                raw.ledger_enable()
            tick('operations that raise')
            if got != ref or rec2 or want == 'none' and rec or len(rec) > 2:
                fail('%s: %s with the ledger on, %s without; records %s' % (w, str(got)[:100], str(ref)[:100], rec), history=hist)
                return None
            # an operation which raises is recorded if its loop ran: the trace keeps the calls around it
        elif c == 'many':
            k = rnd.choice([200, 9000, 17000]) if arg.get('many', True) else 50
            a, b = np.arange(5.0), np.ones(5)
            want_r = a + b
            on = raw.ledger_isenabled()
            rec = records()
            for _ in range(k):
                r = np.add(a, b)
            rec = records()
            tick('operations', k)
            ok = len(rec) == (k if on else 0) and all(x == dict(len=5, op='add', type='float64', cat='Binary') for x in rec)
            if not ok or r.tobytes() != want_r.tobytes():
                fail('%d additions in a row leave %d records, the last %s' % (k, len(rec), rec[-1:]), history=hist)
                return None
    return out


a_big = {}
LONGOPS = [('argsort', lambda a: np.argsort(a), ['ledger2', 'argsort'], ['ArgSort'], 1), ('sort', lambda a: np.sort(a), ['ledger2', 'sort'], ['Sort'], 1), ('sin', lambda a: np.sin(a), ['sin'], ['TrigLog'], 6), ('floor_divide', lambda a: np.floor_divide(a, 0.3), ['floor_divide'], ['Binary'], 8),
           ('less', lambda a: np.less(a, 0.3), ['less'], ['Compare'], 60), ('sqrt', lambda a: np.sqrt(a), ['sqrt'], ['Unary'], 40), ('log10', lambda a: np.log10(a), ['log10'], ['TrigLog'], 6)]


def window(hist, scale=1.0):
    """a history with a long operation of a second thread; None if the operation was over too early"""
    reset()
    name, f, nm, cats, w = rnd.choice(LONGOPS)
    n = int(arg.get('long', 300000) * w * scale)
    if n not in a_big:
        a_big.clear()
        a_big[n] = np.random.RandomState(arg['seed']).rand(n)
    a = a_big[n]
    x = np.arange(7.0)
    out, th, res = [], None, {}
    go = threading.Event()

    def body():
        go.set()
        res['r'] = f(a)
        res['end'] = time.perf_counter()
    t_last = None
    for c, want in hist:
        if c in ('enable', 'disable', 'info'):
            getattr(raw, 'ledger_' + c)()
            out.append([c, None])
        elif c == 'ask':
            out.append([c, bool(raw.ledger_isenabled())])
        elif c == 'op':
            np.add(x, 1.0) if rnd.random() < 0.5 else np.add(x, x)
            out.append([c, None])
        elif c == 'begin':
            th = threading.Thread(target=body)
            go.clear()
            th.start()
            go.wait()
            time.sleep(0.003)
            out.append([c, None])
        elif c == 'end':
            t_last = time.perf_counter()
            th.join()
            out.append([c, None])
        out[-1].append(records())
        if th is not None and c != 'end' and t_last is None and 'end' in res:
            th.join()
            return None
    if res['end'] <= t_last:
        return None
    evs = []
    for (c, ans, rec), (_, want) in zip(out, hist):
        if c == 'op':
            e = ev(c, rec, names=['add'], type='float64', cats=['Binary'], loops=1, total=[7])
        elif c == 'end':
            e = ev(c, rec, names=nm, type='float64', cats=cats, loops=1, total=[n])
        else:
            e = ev(c, rec, answer=bool(ans))
        good = all(r['op'] in e['names'] and r['type'] == e['type'] and r['cat'] in e['cats'] for r in rec) and len(rec) == e['loops'] and sum(r['len'] for r in rec) in e['total']
        bad = want == 'own' and not good or want == 'none' and rec or want == 'may' and rec and not good or c == 'ask' and ans != (want == 'yes')
        if bad:
            fail('%s during or after a long %s of another thread: %s, records %s (history %s)' % (c, name, ans, rec, [q for q, _ in hist]), history=hist, long=name)
            return []
        evs.append(e)
    reset()
    if not arg.get('nolongcheck'):
        ref = key(f(a[:1000]))
        if key(res['r'][:1000]) != ref and name not in ('argsort', 'sort'):
            fail('the long %s gives another result (history %s)' % (name, hist), history=hist)
            return []
    return evs


def general():
    """forms of call with several loops: same outcome, and the recorded lengths add up to the items handled"""
    r = rnd
    for _ in range(arg['cases']):
        t = r.randrange(0, 13)
        rows, cols = r.choice([1, 2, 7, 30]), r.choice([1, 3, 17, 64, 300])
        a = data(t, rows * cols, r).reshape(rows, cols)
        if r.random() < 0.3:
            a = np.asfortranarray(a)
        us = sorted({u for u, q in KEYS if q == t})
        u = r.choice(us)
        f = getattr(np, u)
        forms = dict(call=lambda: f(a) if f.nin == 1 else f(a, a), mixed=lambda: f(a[:, ::-1]) if f.nin == 1 else f(a, a[:1]), where=lambda: f(a, where=a > a[:1, :1]) .shape if f.nin == 1 else f(a, a, where=a > 0, out=np.zeros(a.shape, f(a[:0], a[:0]).dtype)),
                     order=lambda: f(a, order='F') if f.nin == 1 else f(a, a.T.copy().T, order='C'), cast=lambda: f(a, casting='same_kind') if f.nin == 1 else f(a, np.ones(cols, 'i1')), sort=lambda: np.sort(a, axis=r2), argsort=lambda: np.argsort(a, axis=r2, kind='stable'),
                     inplace=lambda: f(a.copy(), out=a.copy() if f(a[:0]).dtype == a.dtype else None) if f.nin == 1 else f(a, a, out=a.copy() if f(a[:0], a[:0]).dtype == a.dtype else None),
                     swapped=lambda: f(a.astype(a.dtype.newbyteorder('>'))) if f.nin == 1 else f(a, a.astype(a.dtype.newbyteorder('>'))), argmax=lambda: a.argmax(axis=r2), unique=lambda: np.unique(a), median=lambda: np.median(a), std=lambda: a.std(), any=lambda: (a.any(axis=r2), a.all()),
                     nested=lambda: np.where(a > 0, a, -a if t else a).sum(), lexsort=lambda: pn.lexsort([a[:, 0], a[:, -1]]), getitem=lambda: pn.getitem(a[:, 0].copy(), np.array([0, -1])) if hasattr(pn, 'getitem') else 0, psort=lambda: pn.sort(a[0]), astype=lambda: a.astype('f8').astype('i4') if t < 11 else a.astype('f4'),
                     sumax=lambda: a.sum(axis=r2), cumsum=lambda: a.cumsum(axis=r2), minmax=lambda: (a.min(axis=r2), a.max()))
        if f.nin == 2:
            forms.update(reduce=lambda: f.reduce(a, axis=r2), reduce0=lambda: f.reduce(a, axis=None), accumulate=lambda: f.accumulate(a, axis=r2), outer=lambda: f.outer(a[0], a[:, 0]), reduceat=lambda: f.reduceat(a[0], [0, cols // 2]), at=lambda: at(f, a), keep=lambda: f.reduce(a, axis=(0, 1), keepdims=True))
        r2 = r.choice([0, 1])

        def at(f, a):
            b = a.copy()
            f.at(b, (0, np.arange(cols)), a[0])
            return b
        w = r.choice(sorted(forms))
        g = forms[w]
        what = '%s.%s %s %dx%d' % (u, w, CH[t], rows, cols)
        progress(what)
        st = r.choice(['raise', 'ignore', 'ignore'])

        def run():
            with np.errstate(all=st):
                return outcome(g)
        reset()
        off = run()
        if records():
            fail('%s is recorded while the ledger is off' % what, op=what)
        before = (raw.atop_isenabled(), raw.thread_isenabled(), raw.thread_getworkers())
        raw.ledger_enable()
        on = run()
        rec = records()
        state = raw.ledger_isenabled(), (raw.atop_isenabled(), raw.thread_isenabled(), raw.thread_getworkers())
        raw.ledger_disable()
        again = run()
        tick('forms of call')
        if not (off == on == again) and not (w in ('where',) and f.nin == 1):
            fail('%s gives %s with the ledger on, %s off, %s off again' % (what, str(on)[:100], str(off)[:100], str(again)[:100]), op=what)
        if state != (True, before):
            fail('%s changes the state: %s instead of %s' % (what, state, (True, before)), op=what)
        if any(x['op'].startswith('?') or x['len'] < 0 or x['type'] not in TYPES for x in rec):
            fail('%s leaves strange records: %s' % (what, rec[:3]), op=what)
        if on[0] != 'error' and w in ('call', 'mixed', 'order', 'sort', 'argsort', 'accumulate', 'outer', 'reduce0', 'keep') and a.size:
            size = dict(outer=[rows * cols], accumulate=[a.size - a.size // a.shape[r2], a.size] + ([0] if a.shape[r2] == 1 else []), sort=[a.size], argsort=[a.size], reduce0=[a.size, a.size - 1, 0], keep=[a.size, a.size - 1, 0]).get(w, [a.size])
            nm = names(u) if w not in ('sort', 'argsort') else ['ledger2', 'sort', 'argsort']
            own = [x for x in rec if x['op'] in nm]
            if u in CMP and w in ('reduce0', 'keep', 'accumulate') or t == 0 and w in ('reduce0', 'keep', 'accumulate') or w in ('sort', 'argsort') and t == 0 or w == 'sort' and a.shape[r2] == 1 or w == 'argsort' and a.shape[r2] == 1:
                continue                # other loops (bool, an outcome type), or nothing to do
            if w in ('accumulate', 'reduce0', 'keep') and (u in ('true_divide', 'floor_divide', 'left_shift', 'right_shift') or t in range(1, 5)):
                own = [x for x in rec]
            if sum(x['len'] for x in own) not in size:
                fail('%s: the records add up to %d items instead of %s: %s' % (what, sum(x['len'] for x in own), size, rec[:3]), op=what)


if 'histories' in arg:
    for h in arg['histories']:
        o = play(h)
        tick('histories')
        if o is not None and o and rnd.random() < arg.get('keep', 0.3):
            trace.write(json.dumps(dict(ev=[{k: v for k, v in e.items() if k != 'what'} for e in o if e['call'] != 'bad'])) + '\n')
            tick('traces')
    general()
raw.thread_disable()
for h in arg.get('windows', ()):
    progress('window %s' % [c for c, _ in h])
    s, o = 1.0, None
    for _ in range(5):
        o = window(h, s)
        if o is not None:
            break
        s *= 2
    tick('histories of two threads' if o else 'histories given up')
    if o:
        trace.write(json.dumps(dict(ev=o)) + '\n')
        tick('traces')
trace.close()
json.dump({'fails': fails, 'counts': counts}, open(sys.argv[2], 'w'))
