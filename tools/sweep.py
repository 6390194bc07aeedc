#!/usr/bin/env python3
"""Runs checks against patched scratch copies of /repo, several at a time.

tools/sweep.py [-j N] [--all] [--checks C01,C03] PATCH...
  PATCH: a seeded bug (its property's check runs; all checks with --all) or a *.diff file (all checks run)"""
import argparse, glob, json, os, queue, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=3)
ap.add_argument('--all', action='store_true')
ap.add_argument('--checks')
ap.add_argument('patch', nargs='*')
a = ap.parse_args()
checks = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
names = a.patch or sorted(os.listdir(V + '/seeded'))
jobs = queue.Queue()
for n in names:
    if n.endswith('.diff'):
        ps = a.checks.split(',') if a.checks else checks
        jobs.put((os.path.basename(n)[:-5], os.path.abspath(n), ps))
    else:
        d = V + '/seeded/' + n
        p = json.load(open(d + '/meta.json'))['property']
        ps = a.checks.split(',') if a.checks else checks if a.all else [p] if p in checks else []
        jobs.put((n, d + '/patch.diff', ps))
BASE = '/tmp/sw'
snap = '%s/verif-%d' % (BASE, os.getpid())
os.makedirs(BASE, exist_ok=True)
subprocess.run(['rsync', '-a', '--exclude=.git', '--exclude=.cache', '--exclude=seeded', V + '/', snap + '/']) if shutil.which('rsync') else \
    shutil.copytree(V, snap, ignore=shutil.ignore_patterns('.git', '.cache', 'seeded', '__pycache__'))
lock = threading.Lock()
res = []


def worker(i):
    w = '%s/slot%d' % (BASE, i)
    os.makedirs(w, exist_ok=True)
    if not os.path.exists(w + '/repo'):
        subprocess.run(['cp', '-a', '/repo', w + '/repo'])
    if not os.path.exists(w + '/cache'):
        subprocess.run(['cp', '-a', V + '/.cache', w + '/cache'])
    subprocess.run(['rm', '-rf', w + '/verif'])
    shutil.copytree(snap, w + '/verif')
    env = dict(os.environ, VERIF_REPO=w + '/repo', VERIF_CACHE=w + '/cache')
    g = ['git', '-C', w + '/repo']
    while True:
        try:
            n, p, ps = jobs.get_nowait()
        except queue.Empty:
            return
        subprocess.run(g + ['fetch', '-q', '/repo', 'HEAD'])
        subprocess.run(g + ['checkout', '-q', '-f', 'FETCH_HEAD'])
        r = subprocess.run(g + ['apply', p], capture_output=True, text=True)
        if r.returncode:
            with lock:
                print('%-32s DOES NOT APPLY %s' % (n, r.stderr[:200]), flush=True)
            continue
        for c in ps:
            try:
                o = subprocess.run([w + '/verif/run.sh', c], env=env, capture_output=True, text=True, timeout=900)
                rc, out = o.returncode, o.stdout + o.stderr
            except subprocess.TimeoutExpired:
                rc, out = 'timeout', ''
            ls = [l for l in out.splitlines() if l.strip() and 'ok: {' not in l and not l.startswith('KNOWN')]
            with lock:
                if rc != 0 or not a.all and not n.endswith('.diff'):
                    print('%-32s %s rc=%s %s' % (n, c, rc, ' || '.join(x[:170] for x in (ls[:2] if rc == 1 else ls[-2:]))), flush=True)
                res.append((n, c, rc))
        subprocess.run(g + ['checkout', '-q', '-f', '.'])


ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.j)]
[t.start() for t in ts]
[t.join() for t in ts]
subprocess.run(['rm', '-rf', snap])
print('done: %d runs, rc0 %d, rc1 %d, other %d' % (len(res), sum(r[2] == 0 for r in res), sum(r[2] == 1 for r in res),
                                                  sum(r[2] not in (0, 1) for r in res)))
