"""Character-level graphs of the entry points of the lexer."""
import os, pickle, time, multiprocessing
import lib
from lib import sha, HERE, Lock


def O(c):
    return ('opt', c)


# (key, function, arguments, first characters)
def entries():
    out = [('token', 'get_token', [], '')]
    for c in '({[<!|)"':
        out.append(('percent ' + c, 'get_percent_notation', [], c))
    for k in 'qQwWiIsxr':
        for c in '(!':
            out.append(('percent ' + k + c, 'get_percent_notation', [], k + c))
    out.append(('percent q{', 'get_percent_notation', [], 'q{'))
    out.append(('percent r{', 'get_percent_notation', [], 'r{'))
    out.append(('percent w[', 'get_percent_notation', [], 'w['))
    out.append(('percent q<', 'get_percent_notation', [], 'q<'))
    for c in ('a', '1', 'q1', 'ra', 'w ', 'q ', 'Z', 'i\n'):
        out.append(('percent ' + c, 'get_percent_notation', [], c))
    for op, t, l in (('', '"', 0), ('(', ')', 0), ('(', ')', 1), ('', '!', 0), ('', '', 0)):
        out.append(('string %s %s %d' % (op, t, l), 'read_string_literal_double', [O(op), O(t), l], ''))
    for op, t, l in (('', '`', 0), ('', '', 0)):
        out.append(('command %s %s %d' % (op, t, l), 'read_command_literal', [O(op), O(t), l], ''))
    out.append(('regexp', 'get_regexp', [], ''))
    out.append(('postfix', 'check_postfix', [], ''))
    out.append(('char', 'read_char_literal', ['str'], ''))
    out.append(('symbol', 'read_symbol_literal', [], ''))
    out.append(('method name 1', 'read_method_name', [1], ''))
    out.append(('method name 0', 'read_method_name', [0], ''))
    out.append(('heredoc', 'read_heredocument', [], ''))
    out.append(('next lparen', 'trailing_lparen', [], ''))
    out.append(('next space', 'trailing_space', [], ''))
    out.append(('after token', 'has_trailing_space', ['token'], ''))
    return out


class LG:
    __slots__ = ('key', 'fn', 'out', 'exits', 'where', 'err', 'secs', 'pruned', 'fns', 'args')


def _run(job):
    path, alias, key, fname, args, first = job
    from prog import Prog
    from core import AnalysisError, NONE, some
    import lexeng
    g = LG()
    g.key, g.fn, g.args = key, fname, args
    g.err = None
    g.out, g.exits, g.where, g.pruned, g.fns = [], {}, [], 0, ()
    t = time.time()
    try:
        P = Prog(path, alias)
        E = lexeng.LexEngine(P)
        ps = [p for p in P.fns if p.startswith(lexeng.LEXER) and p.endswith('::' + fname)]
        if len(ps) != 1:
            raise AnalysisError('function %s not found' % fname)
        fn = P.fns[ps[0]]
        if fn['argc'] != 1 + len(args):
            raise AnalysisError('%s has other arguments' % fname)
        vals = []
        for i, a in enumerate(args):
            ty = P.ty(fn['locals'][i + 2]) or {}
            if isinstance(a, tuple):
                if ty.get('def') != 'std::option::Option':
                    raise AnalysisError('%s has other arguments' % fname)
                vals.append(some(('c', ord(a[1]))) if a[1] else NONE)
            elif a == 'str':
                inner = P.ty(ty.get('inner')) if ty.get('k') == 'ref' else None
                if inner is None or not inner.get('def', '').endswith('RubyString'):
                    raise AnalysisError('%s has other arguments' % fname)
                utf = [i for i, v in enumerate(inner['variants']) if v['name'] == 'Utf8'][0]
                vals.append(('adt', inner['def'], utf, (('s', ''),)))
            elif a == 'token':
                vals.append(('tokhere',))
            elif a == 'text':
                vals.append(('prim', 'buf'))
            else:
                if ty.get('k') not in ('int', 'uint', 'bool', 'prim') and P.ty(fn['locals'][i + 2]) is not None and \
                        ty.get('k') in ('adt', 'ref'):
                    raise AnalysisError('%s has other arguments' % fname)
                vals.append(('c', a))
        G = E.run_fn(ps[0], vals, [lexeng.BIT[ord(c)] for c in first or ''])
        g.out = G.out
        g.exits = G.exits
        g.pruned = getattr(E, 'pruned', 0)
        g.where = [(k[0][-1][0], k[0][-1][1]) if k[0] != 'EXIT' and k[0] else None for k in G.keys]
        g.fns = sorted({w[0] for w in g.where if w})
    except AnalysisError as e:
        g.err = str(e)
    g.secs = time.time() - t
    return g


def key():
    return sha([os.path.join(HERE, f) for f in ('core.py', 'models.py', 'prog.py', 'lexeng.py', 'lexgraphs.py')] +
               [os.path.join(lib.VERIF, 'spec', 'baseline.json')])


def lexgraphs():
    d = lib.dump()
    f = os.path.join(d, 'lexgraphs-%s.pkl' % key())
    with Lock('lexgraphs'):
        if os.path.exists(f):
            with open(f, 'rb') as h:
                return pickle.load(h)
        P = lib.prog('lib')
        path = os.path.join(d, 'lib.json')
        jobs = [(path, P.alias) + e for e in entries()]
        with multiprocessing.Pool(min(8, os.cpu_count() or 4)) as pool:
            r = pool.map(_run, jobs, chunksize=1)
        r = {g.key: g for g in r}
        with open(f + '.tmp', 'wb') as h:
            pickle.dump(r, h, protocol=4)
        os.rename(f + '.tmp', f)
        return r
