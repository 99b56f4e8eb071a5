"""Random configurations and operations on real threads: does everything come back?"""
import json, sys, random
A = json.load(open(sys.argv[1]))
import numpy as np
np.seterr(all='ignore')
import pnumpy as pn
import pnumpy._pnumpy as raw
rnd = random.Random(A['seed'])
R = np.random.RandomState(A['seed'])
prog = open(sys.argv[2] + '.progress', 'w')
calls = 0
UF = [(u, d) for u in ('add', 'multiply', 'less', 'sqrt', 'sin', 'maximum', 'negative') for d in (3, 5, 7, 11, 12)]
REC = np.dtype([('a', 'f8'), ('b', 'i4'), ('c', 'S3')])


def data(n, dt):
    return (R.randint(0, 100, n)).astype(dt)


for k in range(A['rounds']):
    w = rnd.choice([1, 2, 3, 4, 5, 8, 15, 0, -1, 100])
    raw.thread_setworkers(w)
    for _ in range(2):
        u, d = rnd.choice(UF)
        try:
            raw.atop_setworkers(u, d, rnd.choice([0, 1, 2, 3, 4, 7, 8, 31, 63]))
        except Exception:
            pass
    t = rnd.random()
    (raw.thread_disable if t < .15 else raw.thread_enable)()
    if rnd.random() < .3:
        raw.thread_zigzag()
    n = rnd.choice([0, 1, 65535, 65536, 65537, 70001, 98304, 131072, 200000, 262145, 1000000])
    dt = rnd.choice(['i4', 'f8', 'f4', 'i8', 'i2'])
    a, b = data(n, dt), data(n, dt)
    m = R.rand(n) < rnd.choice([0, .01, .5, 1])
    ix = R.randint(-max(n, 1), max(n, 1), n).astype(rnd.choice(['i4', 'i8'])) if n else np.zeros(0, 'i8')
    rec = np.zeros(min(n, 300000), REC)
    ops = [('add', lambda: a + b), ('less', lambda: a < b), ('scalar', lambda: a * 3), ('inplace', lambda: np.add(a, b, out=a)), ('sqrt', lambda: np.sqrt(a)),
           ('sin', lambda: np.sin(a)), ('sum', lambda: a.sum()), ('min', lambda: a.min() if n else 0), ('sort', lambda: np.sort(a, kind=rnd.choice(['quicksort', 'stable', 'heapsort']))),
           ('argsort', lambda: np.argsort(a, kind='stable')), ('lexsort', lambda: pn.lexsort([a, b]) if n else 0), ('mask', lambda: pn.getitem(a, m)),
           ('fancy', lambda: pn.getitem(a, ix) if n else 0), ('arange', lambda: np.arange(n)), ('astype', lambda: a.astype('f8')),
           ('rec', lambda: pn.recarray_to_colmajor(rec, parallel=True) if n else 0), ('cumsum', lambda: np.cumsum(a)), ('rev', lambda: a[::-1] + b[::-1])]
    for name, f in ops:
        prog.seek(0)
        prog.write('round %d workers %d n %d %s %s        ' % (k, w, n, dt, name))
        prog.flush()
        f()
        calls += 1
json.dump({'calls': calls}, open(sys.argv[2], 'w'))
