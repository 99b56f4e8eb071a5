#!/usr/bin/env python3
"""Tries planted bugs in private copies of /repo:  tryseed.py [-n PAR] [--no-tests] [--checks C01,C02|own|all|none] ID|DIR ...
For each: patch applies, touches only original lines, builds, stable tests pass, demo 0 on the unchanged tree and
nonzero with the patch, and which checks catch it.  Works in a user+mount namespace, so /repo itself is untouched."""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('-n', type=int, default=1)
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--checks', default='own')
ap.add_argument('--keep-log', action='store_true')
ap.add_argument('--tier', default='quick')
A = ap.parse_args()
BASE = 'b86abc9'


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def ns(wt, cmd, timeout, evid=None):
    work = wt + '.work'
    os.makedirs(work, exist_ok=True)
    m = 'mount --bind %s /repo && mount --bind %s /opt/vp/work && ' % (wt, work)
    if evid:
        os.makedirs(evid, exist_ok=True)
        m += 'mount --bind %s %s/evidence && ' % (evid, HERE)
    m += 'cd /repo && exec timeout -k 5 %d %s' % (timeout, cmd)
    return sh(['unshare', '-Urm', 'bash', '-c', m], env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))


def original_lines(d):
    """every removed line of the patch must be blamed on the base commit"""
    bad = []
    f = None
    for l in open(os.path.join(d, 'patch.diff'), errors='replace'):
        if l.startswith('--- a/'):
            f = l[6:].strip().split('\t')[0]
            bl = sh(['git', '-C', '/repo', 'blame', '-s', '--abbrev=10', f]).stdout.decode(errors='replace').splitlines()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
        elif f and l.startswith('-') and not l.startswith('---'):
            if not bl[n].lstrip('^').startswith(BASE):
                bad.append(l.strip())
            n += 1
        elif f and l.startswith(' '):
            n += 1
    return bad


def one(i):
    d = i if os.path.isdir(i) else os.path.join(HERE, 'seeded', i)
    d = os.path.abspath(d)
    i = os.path.basename(d.rstrip('/'))
    meta = json.load(open(d + '/meta.json'))
    wt = '/tmp/seedwt-' + i
    out = {'id': i, 'property': meta['property']}
    demo = '/tmp/seeddemo-' + i
    try:
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        sh(['cp', '-a', '/repo', wt])
        sh(['git', '-C', wt, 'checkout', '-q', '--', '.'])
        out['not_original'] = original_lines(d)
        r = ns(wt, 'bash /opt/vp/build.sh', 300)
        out['build0'] = r.returncode
        r = ns(wt, 'bash %s/demo.sh' % demo, 300)
        out['demo_clean'] = r.returncode
        if r.returncode:
            out['demo_clean_out'] = r.stdout.decode(errors='replace')[-600:]
        r = sh(['git', '-C', wt, 'apply', d + '/patch.diff'])
        if r.returncode:
            out['apply'] = r.stdout.decode()[-400:]
            return out
        t = time.time()
        r = ns(wt, 'bash /opt/vp/build.sh', 300)
        out['build'] = r.returncode
        if r.returncode:
            out['build_out'] = r.stdout.decode(errors='replace')[-800:]
            return out
        t = time.time()
        r = ns(wt, 'bash %s/demo.sh' % demo, 300)
        out['demo_patched'] = r.returncode
        out['demo_out'] = r.stdout.decode(errors='replace')[-300:]
        out['demo_s'] = round(time.time() - t, 1)
        if not A.no_tests:
            ns(wt, 'bash /opt/vp/test.sh %s.json' % wt, 900)
            p = set(json.load(open(wt + '.json'))['passed'])
            st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            out['tests_failed'] = sorted(st - p)
        cs = [] if A.checks == 'none' else [meta['property']] if A.checks == 'own' else \
            ['C%02d' % k for k in range(1, 21)] if A.checks == 'all' else A.checks.split(',')
        out['checks'] = {}
        for c in cs:
            t = time.time()
            r = ns(wt, '%s/check %s %s' % (HERE, c, A.tier), 900, wt + '.evid')
            text = r.stdout.decode(errors='replace')
            v = [l for l in text.splitlines() if l.startswith('VIOLATION')]
            out['checks'][c] = (r.returncode, len(v), round(time.time() - t))
            k = text.find('VIOLATION')
            lines = text.splitlines()
            ix = [j for j, l in enumerate(lines) if l.startswith('VIOLATION')]
            out['why_' + c] = lines[ix[0] - 1][:300] if ix else text[-300:] if r.returncode else ''
    finally:
        for x in (wt, wt + '.work', wt + '.evid', demo):
            shutil.rmtree(x, ignore_errors=True)
        if os.path.exists(wt + '.json'):
            os.remove(wt + '.json')
    return out


ids = A.ids or sorted(os.listdir(os.path.join(HERE, 'seeded')))
with cf.ThreadPoolExecutor(A.n) as ex:
    for o in ex.map(one, ids):
        valid = o.get('build') == 0 and o.get('demo_clean') == 0 and o.get('demo_patched') not in (0, None) and \
            not o.get('tests_failed') and not o.get('not_original')
        caught = [c for c, v in o.get('checks', {}).items() if v[0] == 1 and v[1]]
        print('%-26s %s %s caught by %s' % (o['id'], o['property'], 'VALID' if valid else 'INVALID', caught or '-'), flush=True)
        for k, v in o.items():
            if k not in ('id', 'property') and v not in ([], '') and (k.startswith('why') or k == 'checks' or not valid):
                print('     ', k, v, flush=True)
