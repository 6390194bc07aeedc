"""Infrastructure shared by all checks: build the MIR dump of /repo's current tree, run the
token-level analysis on every reachable parsing function (cached by content), report."""
import re, sys, os, json, hashlib, subprocess, fcntl, shutil, time, pickle, glob, multiprocessing

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


class Broken(Exception):
    """the check cannot give an answer"""


def sha(files, extra=()):
    h = hashlib.sha256()
    for p in sorted(files):
        h.update(os.path.basename(p).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    for x in extra:
        h.update(str(x).encode())
    return h.hexdigest()[:20]


def driver_files():
    d = os.path.join(VERIF, 'driver')
    return [os.path.join(d, 'Cargo.toml')] + glob.glob(d + '/src/*.rs')


def repo_files():
    out = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'src')):
        out += [os.path.join(root, f) for f in fs]
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def repo_key():
    h = hashlib.sha256()
    for p in sorted(repo_files()):
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        h.update(open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:20]


class Lock:
    def __init__(s, name):
        os.makedirs(CACHE, exist_ok=True)
        s.f = open(os.path.join(CACHE, name + '.lock'), 'w')

    def __enter__(s):
        fcntl.flock(s.f, fcntl.LOCK_EX)

    def __exit__(s, *a):
        fcntl.flock(s.f, fcntl.LOCK_UN)
        s.f.close()


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def driver():
    key = sha(driver_files())
    out = os.path.join(CACHE, 'driver-' + key)
    binp = os.path.join(out, 'mirdump')
    if os.path.exists(binp):
        return binp
    tgt = os.path.join(CACHE, 'driver-target')
    rc, log = sh(['cargo', '+nightly', 'build', '--offline'], {'CARGO_TARGET_DIR': tgt},
                 os.path.join(VERIF, 'driver'))
    if rc != 0:
        raise Broken('driver does not build:\n' + log[-3000:])
    os.makedirs(out, exist_ok=True)
    shutil.copy(os.path.join(tgt, 'debug', 'mirdump'), binp + '.tmp')
    os.rename(binp + '.tmp', binp)
    return binp


def dump():
    """-> directory with lib.json and bin.json for the current tree of /repo"""
    with Lock('dump'):
        drv = driver()
        key = repo_key() + '-' + sha(driver_files())[:8]
        out = os.path.join(CACHE, 'dump-' + key)
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        tgt = os.path.join(CACHE, 'target')
        # compile the crate itself again, whatever the time stamps say
        for p in (glob.glob(tgt + '/debug/.fingerprint/ruruby-parse*') + glob.glob(tgt + '/debug/build/ruruby-parse*') +
                  glob.glob(tgt + '/debug/incremental/ruruby_parse*')):
            shutil.rmtree(p)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        rc, log = sh(['cargo', '+nightly', 'check', '--offline', '--locked', '--lib', '--bins'],
                     {'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib'), 'CARGO_TARGET_DIR': tgt,
                      'MIRDUMP_OUT': tmp, 'RUSTC_WORKSPACE_WRAPPER': drv}, REPO)
        if rc != 0:
            raise Broken('/repo does not compile:\n' + log[-3000:])
        lib = os.path.join(tmp, 'ruruby_parse.rlib.json')
        exe = os.path.join(tmp, 'ruruby_parse.executable.json')
        if not (os.path.exists(lib) and os.path.exists(exe)):
            raise Broken('MIR dump missing:\n' + log[-2000:])
        os.rename(lib, os.path.join(tmp, 'lib.json'))
        os.rename(exe, os.path.join(tmp, 'bin.json'))
        open(os.path.join(tmp, 'ok'), 'w').close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # keep the cache small
        ds = sorted(glob.glob(os.path.join(CACHE, 'dump-*')), key=os.path.getmtime)
        for d in ds[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        return out


_prog = {}


def prog(which='lib'):
    from prog import Prog
    d = dump()
    k = (d, which)
    if k not in _prog:
        f = os.path.join(d, which + '.json')
        P = Prog(f)
        if which == 'lib':
            al = P.renamed(baseline())
            if al:
                P = Prog(f, al)
        _prog[k] = P
    return _prog[k]


def baseline():
    return json.load(open(os.path.join(VERIF, 'spec', 'baseline.json')))


# ------------------------------------------------------------------ token-level graphs
def engine_key():
    return sha([os.path.join(HERE, f) for f in ('core.py', 'models.py', 'prog.py', 'tokens.py')] +
               [os.path.join(VERIF, 'spec', 'baseline.json')])


class G:
    """result of the analysis of one parsing function in one calling context"""
    __slots__ = ('name', 'cargs', 'out', 'exits', 'nkeys', 'err', 'fns', 'visited', 'secs', 'calls', 'unknown')

    def label(s):
        return s.name + ('(' + ','.join(s.cargs) + ')' if any(c != '_' for c in s.cargs) else '')


def _worker(job):
    path, alias, root, cargs = job
    import tokens
    from core import AnalysisError
    P = _worker.P.get(path)
    if P is None:
        from prog import Prog
        P = _worker.P[path] = Prog(path, alias)
    e = tokens.TokenEngine(P)
    g = G()
    g.name = root.split('::')[-1]
    g.cargs = cargs
    g.err = None
    t = time.time()
    try:
        r = e.analyze(root, cargs)
        g.out = r.out
        g.exits = r.exits
        g.nkeys = len(r.keys)
    except AnalysisError as ex:
        g.err = str(ex)
        g.out, g.exits, g.nkeys = [], {}, 0
    g.visited = e.visited_blocks
    g.fns = {p for p, _ in e.visited_blocks}
    g.calls = {k: sorted(v) for k, v in e.calls_seen.items()}
    g.unknown = dict(e.unknown_calls)
    g.secs = time.time() - t
    return root, g


_worker.P = {}


def root_fns(P):
    """entry points: functions not reachable from another function that create the parser"""
    import tokens
    out = []
    for p in P.fns:
        if P.fns[p]['kind'] == 'fn' and p.split('::')[-1] == 'parse' and '::{closure' not in p:
            out.append(p)
    return out


class Hashes:
    """what the graph of a parsing function depends on: the bodies of the functions that were analysed for it and the
    classification of the functions they call"""

    def __init__(self, P, e):
        self.P, self.e = P, e
        self.b = {}
        self.c = {}
        self.base = sha([], [engine_key(), json.dumps(P.types), e.all_mask, sorted(e.lexer_fields), sorted(e._pf)])

    def body(self, p):
        if p not in self.b:
            f = self.P.fns[p]
            x = json.dumps([f[k] for k in ('blocks', 'promoted', 'locals', 'argc')] + [f.get('selfty')])
            self.b[p] = hashlib.sha256(re.sub(r'"src/[a-z_/]+\.rs:\d+[^"]*"', '""', x).encode()).hexdigest()[:16]
        return self.b[p]

    def cls(self, p):
        if p not in self.c:
            P, e = self.P, self.e
            f = P.fns.get(p)
            if f is None:
                self.c[p] = 'ext'
            else:
                x = [bool(f.get('derived')), f['argc'], f['locals'][:f['argc'] + 1], p in e.lexfns, p in e.stream_fns, p in e.cut,
                     f.get('selfty')]
                if p in e.lexfns and p not in e.stream_fns:
                    x += [e.token_mask(p), e.scan_flushes(p)]
                self.c[p] = json.dumps(x)
        return self.c[p]

    def key(self, fns):
        if any(p not in self.P.fns for p in fns):
            return None
        cs = set().union(*[self.P.callees[p] for p in fns]) if fns else set()
        return sha([], [self.base] + sorted('%s %s' % (p, self.body(p)) for p in fns) +
                   sorted('%s %s' % (p, self.cls(p)) for p in cs | set(fns)))


def graphs():
    """-> {(fn path, cargs): G} for everything reachable from the entry points"""
    d = dump()
    f = os.path.join(d, 'graphs-%s.pkl' % engine_key())
    with Lock('graphs'):
        if os.path.exists(f):
            with open(f, 'rb') as h:
                return pickle.load(h)
        import tokens
        path = os.path.join(d, 'lib.json')
        P = prog('lib')
        e = tokens.TokenEngine(P)
        H = Hashes(P, e)
        gdir = os.path.join(CACHE, 'graphs')
        os.makedirs(gdir, exist_ok=True)
        done = {}
        sub = {}
        known = {}         # results of earlier runs, by function and context
        for x in sorted(glob.glob(gdir + '/*.key'), key=os.path.getmtime):
            try:
                ek, root, ca, fns, key = json.load(open(x))
            except (OSError, ValueError):
                continue
            if ek != engine_key():
                for y in (x, x[:-4] + '.pkl'):
                    if os.path.exists(y):
                        os.unlink(y)
                continue
            known.setdefault((root, tuple(ca)), []).append((fns, key, x[:-4] + '.pkl'))
        with multiprocessing.Pool(min(8, os.cpu_count() or 4)) as pool:
            todo = [(r, ()) for r in root_fns(P)]
            guess = sorted((max(os.path.getsize(z) for _, _, z in known[k]), k) for k in known if k[0] in P.fns)

            def lookup(k):
                for fns, key, x in reversed(known.get(k, ())):
                    if H.key(fns) == key and os.path.exists(x):
                        with open(x, 'rb') as h:
                            return pickle.load(h)

            def submit(k):
                if k in sub:
                    return
                g = lookup(k)
                sub[k] = g if g is not None else pool.apply_async(_worker, ((path, P.alias) + k,))
            for k in todo:
                submit(k)
            # functions that were reached in earlier runs are started first
            for _, k in reversed(guess):
                submit(k)
            pend = list(todo)
            while pend:
                for i, k in enumerate(pend):
                    g = sub[k]
                    fresh = not isinstance(g, G)
                    if fresh and not g.ready():
                        continue
                    pend.pop(i)
                    if fresh:
                        g = g.get()[1]
                        if not g.err:
                            key = H.key(sorted(g.fns))
                            x = os.path.join(gdir, sha([], [k, key]))
                            with open(x + '.tmp', 'wb') as h:
                                pickle.dump(g, h, protocol=4)
                            os.rename(x + '.tmp', x + '.pkl')
                            with open(x + '.key', 'w') as h:
                                json.dump([engine_key(), k[0], list(k[1]), sorted(g.fns), key], h)
                            for _, _, y in known.get(k, [])[:-5]:
                                for z in (y, y[:-4] + '.key'):
                                    if os.path.exists(z):
                                        os.unlink(z)
                    done[k] = g
                    for c in g.calls:
                        if c not in sub or c not in done and c not in pend:
                            submit(c)
                            pend.append(c)
                    break
                else:
                    time.sleep(0.01)
            pool.terminate()
        with open(f + '.tmp', 'wb') as h:
            pickle.dump(done, h, protocol=4)
        os.rename(f + '.tmp', f)
        return done


# ------------------------------------------------------------------ reporting
def known_findings():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: '):
                pid, key = l[7:].split(' ', 1)
                pid = pid.split('=')[1]
                key, _, why = key.partition('  # ')
                out.setdefault(pid, {})[key.strip()] = why
    return out


class Report:
    def __init__(s, pid):
        s.pid = pid
        s.viol = {}
        s.cov = {}
        s.explanation = ''
        s.t = time.time()
        s.obligations = 0
        s.trusted = []

    def violation(s, key, msg):
        s.viol.setdefault(key, msg)

    def count(s, name, n=1):
        s.cov[name] = s.cov.get(name, 0) + n

    def floor(s, name, n):
        """instance counts confirmed by hand: fewer means the rule lost its anchor"""
        if s.cov.get(name, 0) < n and not s.viol:
            raise Broken('%s: only %s instances of %s, at least %d expected' % (s.pid, s.cov.get(name, 0), name, n))

    def finish(s, level='other', checker=''):
        kf = known_findings().get(s.pid, {})
        ev = {'property': s.pid, 'tier': os.environ.get('VERIF_TIER', 'quick'),
              'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
              'coverage': dict(s.cov), 'wall_s': round(time.time() - s.t, 2)}
        ev['coverage']['explanation'] = s.explanation
        if level == 'proof':
            ev['coverage'].update({'obligations': s.obligations, 'discharged': s.obligations - len(s.viol),
                                   'checker_cmd': checker, 'trusted_base': s.trusted})
        new = {k: v for k, v in s.viol.items() if k not in kf}
        old = {k: v for k, v in s.viol.items() if k in kf}
        ev['violations'] = len(new)
        ev['coverage']['findings'] = [{'key': k, 'message': v, 'known': k in kf} for k, v in s.viol.items()]
        ev['assumptions'] = s.trusted
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', s.pid + '.json')
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s' % (s.pid, k))
        rep = os.path.join(VERIF, 'evidence', s.pid + '.violations.txt')
        if new:
            with open(rep, 'w') as f:
                for k in sorted(new):
                    f.write('%s\n    %s\n' % (k, new[k]))
        elif os.path.exists(rep):
            os.remove(rep)
        with open(p, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            for k in sorted(new):
                print('%s: %s' % (k, new[k]))
            print('VIOLATION property=%s replay=%s' % (s.pid, rep))
            return 1
        print('%s ok: %s' % (s.pid, {k: v for k, v in s.cov.items()}))
        return 0
