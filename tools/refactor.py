#!/usr/bin/env python3
"""Writes the behaviour-preserving edits of tools/refactors.py as diffs to /tmp/rf, after building and testing each of them.

tools/refactor.py [NAME...]; then tools/sweep.py /tmp/rf/*.diff"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from refactors import REF
W = '/tmp/rf/repo'
os.makedirs('/tmp/rf', exist_ok=True)
if not os.path.exists(W):
    subprocess.run(['cp', '-a', '/repo', W], check=True)
g = ['git', '-C', W]
for n in sys.argv[1:] or REF:
    subprocess.run(g + ['fetch', '-q', '/repo', 'HEAD'], check=True)
    subprocess.run(g + ['checkout', '-q', '-f', 'FETCH_HEAD'], check=True)
    ok = True
    for f, a, b in REF[n]:
        s = open('%s/%s' % (W, f)).read()
        c = s.count(a)
        if c == 0 or c > 1 and not n.startswith('rename'):
            print(n, 'found %d times:' % c, a[:90])
            ok = False
            break
        open('%s/%s' % (W, f), 'w').write(s.replace(a, b))
    if not ok:
        continue
    r = subprocess.run('. /opt/vp/env.sh; cd %s && cargo test --offline -q --lib' % W, shell=True, capture_output=True, text=True)
    if r.returncode:
        print(n, 'FAILS', (r.stdout + r.stderr)[-400:])
        continue
    open('/tmp/rf/%s.diff' % n, 'w').write(subprocess.run(g + ['diff'], capture_output=True, text=True).stdout)
    print(n, 'ok', flush=True)
subprocess.run(g + ['checkout', '-q', '-f', '.'])
