#!/usr/bin/env python3
"""Plants the bugs described in tools/plants.py: python3 tools/plant.py [--run] ID...
For each: scratch copy of /repo, the change, build, tests, demonstration with and without; kept in seeded/ if all is right.
--run: also applies it to /repo, runs the check of its property, and undoes it."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/pl/sc'
PROBE = open(os.path.join(V, 'tools', 'probe.rs')).read()
DEMO = open(os.path.join(V, 'tools', 'demo_head.sh')).read()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='', CARGO_TARGET_DIR=SC + '/target')


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)


BASE = json.load(open('/opt/vp/BASELINE.json'))


def tests(cwd):
    r = sh('touch -c src/lib.rs src/main.rs; cargo test --offline --locked -- --skip yamanote --skip aobench --skip optcarrot 2>&1', cwd)
    return 'test result: FAILED' not in r.stdout and 'error' not in r.stdout.split('Running')[0].lower().replace('error.rs', '') and 'passed' in r.stdout, r.stdout


def main():
    run = '--run' in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    B = {}
    exec(open(os.path.join(V, 'tools', 'plants.py')).read(), {'B': B})
    if not ids:
        ids = [i for i in B if not os.path.isdir(os.path.join(V, 'seeded', i))]
    if not os.path.isdir(SC):
        shutil.copytree('/repo', SC, symlinks=True)
    for i in ids:
        b = B[i]
        sh('git checkout -q -- . && git fetch -q origin 2>/dev/null; git -C /repo rev-parse HEAD', SC)
        head = sh('git -C /repo rev-parse HEAD', SC).stdout.strip()
        sh('git fetch -q /repo HEAD && git checkout -q %s' % head, SC)
        assert sh('git rev-parse HEAD', SC).stdout.strip() == head
        for f, old, new in b['edits']:
            p = os.path.join(SC, f)
            s = open(p).read()
            n = s.count(old)
            assert n == 1, '%s: %d matches of %r' % (i, n, old)
            open(p, 'w').write(s.replace(old, new))
        d = '/tmp/pl/demo_' + i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/probe.rs', 'w').write(b.get('probe', PROBE))
        open(d + '/demo.sh', 'w').write(DEMO + '\n' + b['demo'].strip() + '\nexit $bad\n')
        diff = sh('git diff', SC).stdout
        good, out = tests(SC)
        if not good:
            print(i, 'TESTS FAIL OR BUILD BROKEN', out[-1500:])
            continue
        r1 = sh('bash %s/demo.sh' % d, SC)
        sh('git checkout -q -- . && touch src/lib.rs src/main.rs', SC)
        r0 = sh('bash %s/demo.sh' % d, SC)
        if r0.returncode != 0 or r1.returncode == 0:
            print(i, 'DEMO WRONG clean=%d bug=%d' % (r0.returncode, r1.returncode), r0.stdout[-1500:], '----', r1.stdout[-800:])
            continue
        o = os.path.join(V, 'seeded', i)
        shutil.rmtree(o, ignore_errors=True)
        shutil.copytree(d, o)
        os.chmod(o + '/demo.sh', 0o755)
        open(o + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        print(i, 'kept', end=' ', flush=True)
        if run:
            sh('git apply %s/patch.diff' % o, '/repo')
            try:
                r = subprocess.run([V + '/run.sh', b['property']], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            finally:
                sh('git checkout -- .', '/repo')
            ls = [l for l in r.stdout.splitlines() if l.strip()]
            print('rc=%d' % r.returncode, '\n    '.join(l[:230] for l in (ls[:3] if r.returncode else ['MISSED'])))
        else:
            print()


main()
