"""C13: parsing is a function of its arguments: no shared state, no input or output, no random order."""
import re
import lib
from prog import short

# std functions with an effect outside the values they are given, or a result that is not determined by them
DENY = ('std::fs::', 'std::env::', 'std::io::', 'std::net::', 'std::process::', 'std::thread::', 'std::time::', 'std::sync::atomic', 'std::sync::Mutex', 'std::sync::RwLock',
        'std::sync::OnceLock', 'std::sync::mpsc', 'std::hash::random', 'std::hash::RandomState', 'std::hash::BuildHasher', 'std::os::', 'std::ptr::', 'std::arch::',
        'std::backtrace', 'std::any::type_name', 'std::alloc::', 'core::sync', 'core::ptr', 'alloc::alloc', 'console::', 'rand', 'libc::', 'core::fmt::rt::Argument::<\'_>::new_pointer')
# a value of these types outlives a parse or comes from outside (a cell in a value of one parse does not, a table that is filled
# once without arguments does not change)
MUT = re.compile(r'\b(Atomic[A-Z]\w+|Mutex\w*|RwLock\w*|OnceLock\w*|LocalKey\w*|Instant|SystemTime|Condvar|std::fs::File|Stdin|Stdout|Stderr)\b'
                 r'|\*mut |\*const ')
HASH = re.compile(r'(HashMap|HashSet|hash_map|hash_set)')
ORDER = re.compile(r'::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|into_iter|next|extract_if|union|intersection|'
                   r'difference|symmetric_difference|fold|for_each|collect)$')
DISK = re.compile(r'std::path::(absolute|Path(Buf)?::(canonicalize|exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|read_dir|read_link))$')
ROOTS = ('parse_program', 'parse_program_eval', 'parse_program_binding')


def bare(n):
    """the name without the generic arguments of its front: <std::fs::File as std::io::Read>::read -> std::fs::File, std::io::Read..."""
    return re.sub(r"[<>&]|'\w+ ?|\bmut \b|\bdyn \b", ' ', n)


def consts(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'const' and isinstance(x[1], dict):
            yield x[1]
            return
        for y in x:
            yield from consts(y)


def run(rep):
    P = lib.prog('lib')
    roots = [p for p, f in P.fns.items() if short(p) in ROOTS]
    if not roots:
        roots = [p for p, f in P.fns.items() if f.get('vis') == 'pub' and 'Parser' in p and short(p).startswith('parse')]
    if not roots:
        raise lib.Broken('anchor: no entry points')
    par = {r: None for r in roots}
    work = list(roots)
    outside = {}
    while work:
        p = work.pop()
        for q in sorted(P.callees[p]):
            if q in P.fns:
                if q not in par:
                    par[q] = p
                    work.append(q)
            else:
                outside.setdefault(q, p)

    def path(p):
        out = []
        while p is not None:
            out.append(short(p))
            p = par[p]
        return ' < '.join(out[:6])
    for q, p in sorted(outside.items()):
        rep.count('outside_functions')
        words = [w for w in bare(q).split() if '::' in w]
        bad = [w for w in words[:3] if any(w.startswith(d) or ('::' + d) in w and d in ('rand',) for d in DENY)]
        if any(q.startswith(d) for d in DENY):
            bad = [q]
        if HASH.search(q) and ORDER.search(q):
            bad = [q]
        if DISK.search(q):
            bad = [q]
        if bad and not harmless(q):
            rep.violation('effect %s' % q[:60], '%s is called by %s' % (q[:90], path(p)))
    for p in sorted(par):
        f = P.fns[p]
        rep.count('functions')
        for t in sorted(set(f['locals'])):
            rep.count('types_of_places')
            ty = P.ty(t)
            n = ty['name'] if ty else ''
            if ty and ty['k'] in ('fndef', 'closure', 'dyn'):
                continue
            m = MUT.search(n)
            if m:
                rep.violation('state %s %s' % (short(p), m.group(0)[:20]), 'a value of type %s in %s' % (n[:70], path(p)))
    for p, f in P.fns.items():
        if f['kind'] == 'static':
            rep.count('statics')
            ty = P.ty(f['locals'][0])
            if ty and MUT.search(ty['name']):
                used = [g for g in par if p in P.callees[g] or any(str(c.get('static', '')) == p for b in P.fns[g]['blocks'] for s in b['s'] for c in consts(s))]
                rep.cov.setdefault('statics_with_state', []).append(short(p))
                if used:
                    rep.violation('static %s' % short(p), 'the static %s is used by %s' % (short(p), path(used[0])))
    rep.floor('functions', 150)
    rep.floor('outside_functions', 60)
    rep.explanation = (
        'Effect analysis over the call graph from the entry points of the parser: every function outside the crate that is reachable is compared with the families that read or '
        'write anything but their arguments (files, environment, time, threads, output, atomics, cells, raw pointers, maps in random order); the types of all places of all '
        'reachable functions are searched for shared or interior mutable state and raw pointers (statics that can change are reached through one of these).')


def harmless(q):
    return q.startswith(('std::ptr::eq', 'std::process::Termination')) or ' as std::clone::Clone>' in q or 'std::io::Error' in q
