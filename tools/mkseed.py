#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  <<  JSON {"edits": [[file, old, new], ...], "demo": "python text", "needs":..., "what":...}"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(ident, prop, edits, demo, needs, what):
    d = os.path.join(HERE, 'seeded', ident)
    os.makedirs(d, exist_ok=True)
    wt = '/tmp/mkseed-' + ident
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', wt], check=True)
    for f, old, new in edits:
        p = os.path.join(wt, f)
        s = open(p, newline='').read()
        crlf = '\r\n' in s
        if crlf:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(old) != 1:
            sys.exit('%s: %d matches in %s of %r' % (ident, s.count(old), f, old[:80]))
        open(p, 'w', newline='').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', wt, 'diff'], stdout=subprocess.PIPE).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexec timeout 250 python -X faulthandler "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(wt)
    print(ident, 'written,', len(diff), 'bytes')
