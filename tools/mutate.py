#!/usr/bin/env python3
"""Mutation campaign:  mutate.py [-n PAR] [--count N] [--seed S] [--checks C01,..] FILE...   (files relative to /repo)
Takes random small changes of the code, drops those which do not compile or leave the machine code as it was, and runs the
checks of the file's properties until one reports a violation.  Survivors are printed with their diff: each is either a change
which no caller can see or something the checks miss.  Works on copies of /repo and of the committed /verif."""
import argparse, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('files', nargs='+')
ap.add_argument('-n', type=int, default=1)
ap.add_argument('--count', type=int, default=20)
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--checks')
ap.add_argument('--lines', help='a-b: only these lines')
ap.add_argument('--out', default='/tmp/w/mutants.jsonl')
A = ap.parse_args()
MAP = {'ops_binary.cpp': 'C01 C03 C07 C06', 'ops_compare.cpp': 'C02', 'ops_unary.cpp': 'C04 C03 C01', 'ops_log.cpp': 'C05', 'ops_trig.cpp': 'C05',
       'avx_mathfun.h': 'C05', 'sort.cpp': 'C12 C11 C13', 'sorting.cpp': 'C13 C12', 'getitem.cpp': 'C14 C15', 'recarray.cpp': 'C16', 'fill.cpp': 'C17',
       'arange.cpp': 'C17', 'ledger.cpp': 'C20', 'threads.h': 'C08 C18 C09 C10', 'threads.cpp': 'C18 C08 C10', 'module_init.cpp': 'C18',
       '_pnumpy.cpp': 'C18 C20 C19 C01 C06 C07 C04', 'sort.py': 'C13 C11', 'recarray.py': 'C16', 'cpu.py': 'C18', '__init__.py': 'C18', 'common.cpp': 'C14 C15 C16 C13',
       'common.h': 'C14 C15', 'item_selection.cpp': 'C14 C15', 'conversions.cpp': 'C14', 'common_inc.h': 'C01 C14 C12', 'atop.cpp': 'C18 C01', 'benchmark.py': 'C18'}


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


OPS = [(r'(?<![<>=!\-+*/&|])<(?![<=])(?= )', '<='), (r'(?<![<>=!\-])>(?![>=])(?= )', '>='), (r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<=[\w\)\]] )\+(?= )', '-'), (r'(?<=[\w\)\]] )-(?= )', '+'), (r'\b(\d+)\b', None), (r'\+=', '-='), (r'-=', '+='), (r'\bint64_t\b', 'int32_t'), (r'\bint32_t\b', 'int16_t'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bTRUE\b', 'FALSE'), (r'_OQ\b', '_UQ'), (r'_UQ\b', '_OQ'), (r'_EQ_', '_NEQ_'), (r'_GT_', '_GE_'), (r'_GE_', '_GT_'), (r'_LT_', '_LE_'), (r'_LE_', '_LT_'),
       (r'epi64', 'epi32'), (r'epi32', 'epi16'), (r'epi16', 'epi8'), (r'epu(\d+)', r'epi\1'), (r'mm256_min', 'mm256_max'), (r'mm256_max', 'mm256_min'), (r'_and_', '_or_'), (r'_or_', '_and_'), (r'_xor_', '_or_'),
       (r'_andnot_', '_and_'), (r'_add_', '_sub_'), (r'_sub_', '_add_'), (r'Stride1|strideIn1', 'strideIn2'), (r'\bdouble\b', 'float'), (r'\buint(\d+)_t\b', r'int\1_t'), (r'\bfor\b', 'for'), (r'DEL', 'DEL'), (r'^(\s*)if \(', r'\1if (!('), ]


def candidates(f):
    text = open('/repo/' + f, errors='replace').read()
    lines = text.split('\n')
    res = []
    block = False
    lo, hi = map(int, A.lines.split('-')) if A.lines else (1, 10 ** 9)
    for n, l in enumerate(lines):
        s = l.strip()
        if '/*' in s and '*/' not in s:
            block = True
        if block:
            if '*/' in s:
                block = False
            continue
        if not lo <= n + 1 <= hi or not s or s.startswith('//') or s.startswith('#') or s.startswith('*') or 'printf' in s or 'LOGGING' in s or s in '{}':
            continue
        code = l.split('//')[0] if not f.endswith('.py') else l.split('#')[0]
        if f.endswith('.py') and (s.startswith('"') or s.startswith('>>>')):
            continue
        for p, r in OPS:
            for m in re.finditer(p, code):
                if p == 'DEL':
                    continue
                if r is None:
                    v = int(m.group(1)) if m.group(1).isdigit() else 0
                    for w in (v + 1, v - 1 if v else 2):
                        res.append((f, n, code[:m.start(1)] + str(w) + l[m.end(1):], '%d>%d' % (v, w)))
                    continue
                if p.startswith(r'^(\s*)if'):
                    if s.endswith('{') and s.count('(') == s.count(')'):
                        k = code.rindex(')')
                        res.append((f, n, code[:m.start()] + m.expand(r) + code[m.end():k] + '))' + code[k + 1:], 'negate'))
                    continue
                if p == r'\bfor\b':
                    continue
                res.append((f, n, l[:m.start()] + m.expand(r) + l[m.end():], p))
        if s.endswith(';') and not re.match(r'(static |const |typedef |using |\w[\w:<>]*\*? \w+( =|;)|return\b|break;|case |\})', s):
            res.append((f, n, re.match(r'\s*', l).group(0) + ';', 'delete'))
        if f.endswith('.py') and re.match(r'[\w.]+(\[.*\])? ?[-+]?= ', s):
            res.append((f, n, re.match(r'\s*', l).group(0) + 'pass', 'delete'))
    return [c for c in res if c[2] != lines[c[1]]]


local = threading.local()
ids = iter(range(1000))
lock = threading.Lock()


def code(wt):
    h = hashlib.sha1()
    for f in sorted(os.listdir(wt + '/src/pnumpy')):
        if f.endswith('.so'):
            sh(['objcopy', '-O', 'binary', '-j', '.text', '-j', '.rodata', '-j', '.data', '-j', '.data.rel.ro', wt + '/src/pnumpy/' + f, wt + '.bin'])
            h.update(open(wt + '.bin', 'rb').read())
    return h.hexdigest()


def setup():
    with lock:
        k = next(ids)
        wt, vf = '/tmp/w/mut%d-%d' % (os.getpid(), k), '/tmp/w/mutv%d-%d' % (os.getpid(), k)
        sh(['git', 'clone', '-q', HERE, vf])
        sh(['cp', '-a', '/repo', wt])
        sh(['git', '-C', wt, 'checkout', '-q', '--', '.'])
    local.wt, local.vf = wt, vf
    build(wt)
    local.base = code(wt)
    return wt, vf


def build(wt):
    w = wt + '.work'
    os.makedirs(w, exist_ok=True)
    return sh(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && mount --bind %s /opt/vp/work && cd /repo && exec timeout 300 bash /opt/vp/build.sh' % (wt, w)])


def one(c):
    f, n, new, op = c
    if not hasattr(local, 'wt'):
        setup()
    wt, vf = local.wt, local.vf
    p = wt + '/' + f
    lines = open('/repo/' + f, errors='surrogateescape').read().split('\n')
    old = lines[n]
    lines[n] = new
    open(p, 'w', errors='surrogateescape').write('\n'.join(lines))
    res = dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), op=op)
    try:
        r = build(wt)
        if r.returncode:
            res['outcome'] = 'no build'
            return res
        if not f.endswith('.py') and code(wt) == local.base:
            res['outcome'] = 'same code'
            return res
        res['runs'] = {}
        for ck in (A.checks.split(',') if A.checks else MAP[os.path.basename(f)].split()):
            t = time.time()
            m = 'mount --bind %s /repo && cd %s && exec timeout -k 5 900 ./check %s quick' % (wt, vf, ck)
            r = sh(['unshare', '-Urm', 'bash', '-c', m], env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            text = r.stdout.decode(errors='replace')
            res['runs'][ck] = (r.returncode, round(time.time() - t))
            if r.returncode == 1 and 'VIOLATION' in text:
                res['outcome'] = 'caught ' + ck
                ls = text.splitlines()
                res['why'] = ls[max(0, [j for j, l in enumerate(ls) if l.startswith('VIOLATION')][0] - 1)][:200]
                return res
            if r.returncode not in (0, 1):
                res['outcome'] = 'NO ANSWER %s %d' % (ck, r.returncode)
                res['text'] = text[-500:]
                return res
        res['outcome'] = 'SURVIVED'
        return res
    finally:
        open(p, 'w', errors='surrogateescape').write(open('/repo/' + f, errors='surrogateescape').read())


rng = random.Random(A.seed)
work = []
per = {f: candidates(f) for f in A.files}
for k in range(A.count):
    f = A.files[k % len(A.files)]
    if per[f]:
        ops = sorted({c[3] if '>' not in c[3] else 'num' for c in per[f]})
        o = rng.choice(ops)
        cs = [c for c in per[f] if (c[3] if '>' not in c[3] else 'num') == o]
        c = rng.choice(cs)
        per[f].remove(c)
        work.append(c)
with cf.ThreadPoolExecutor(A.n) as ex:
    for r in ex.map(one, work):
        print(r['outcome'], r['file'].split('/')[-1], r['line'], r['op'], '|', r['old'][:110], '=>', r['new'][:110], r.get('runs', ''), flush=True)
        open(A.out, 'a').write(json.dumps(r) + '\n')
sh('rm -rf /tmp/w/mut%d-* /tmp/w/mutv%d-*' % (os.getpid(), os.getpid()), shell=True)
