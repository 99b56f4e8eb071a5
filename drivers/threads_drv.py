"""Several Python threads use the module at the same time; every result is compared with the one computed alone."""
import json, sys, threading, time
A = json.load(open(sys.argv[1]))
import numpy as np
np.seterr(all='ignore')
import pnumpy as pn
R = np.random.RandomState(A['seed'])
bad, calls = [], 0
stop = time.time() + A['seconds']


def loop(jobs, ref, limit=None):
    global calls
    k = 0
    while time.time() < stop and len(bad) < 3 and (limit is None or k < limit):
        i = k % len(jobs)
        r = jobs[i][1]()
        if not np.array_equal(r, ref[i], equal_nan=True) and not np.allclose(np.asarray(r, 'f8'), np.asarray(ref[i], 'f8'), rtol=1e-5, equal_nan=True):
            d = np.flatnonzero(np.asarray(r) != np.asarray(ref[i]))
            bad.append('%s differs at %s (%d elements)' % (jobs[i][0], d[:3].tolist(), d.size))
        k += 1
        calls += 1


def mk(n, seed):
    r = np.random.RandomState(seed)
    a, b, i = r.rand(n) + 1, r.rand(n).astype('f4'), r.randint(-99, 99, n).astype('i4')
    m = r.rand(n) < .5
    ix = r.randint(-n, n, n).astype('i8')
    return [('add', lambda: np.add(a, a)), ('mul', lambda: np.multiply(b, b)), ('sum', lambda: np.add.reduce(i)), ('less', lambda: np.less(a, 1.5)),
            ('sqrt', lambda: np.sqrt(a)), ('max', lambda: np.maximum.reduce(b)), ('mask', lambda: pn.getitem(a, m)), ('fancy', lambda: pn.getitem(i, ix)),
            ('sort', lambda: np.sort(i, kind='stable')), ('argsort', lambda: np.argsort(b, kind='stable')), ('lexsort', lambda: pn.lexsort([i, b])),
            ('neg', lambda: np.negative(i)), ('astype', lambda: a.astype('i4'))]


if A['mode'] == 'wrap':
    long_ = np.linspace(-3, 3, 30000000)
    js = [('tanh', lambda: np.tanh(long_))]
    sh = [x for x in mk(65600, 1) if x[0] in ('add', 'mul', 'less', 'neg')]
    sets = [js, sh, sh]
elif A['mode'] == 'mix':
    sets = [mk(70000, 1), mk(140001, 2), mk(300000, 3)]
else:
    sets = [mk(65536, k) for k in range(6)]
refs = [[f() for _, f in s] for s in sets]
ths = [threading.Thread(target=loop, args=(s, r)) for s, r in zip(sets, refs)]
[t.start() for t in ths]
[t.join() for t in ths]
json.dump({'bad': bad, 'calls': calls}, open(sys.argv[2], 'w'))
