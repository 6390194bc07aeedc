"""C02: local variables follow the nesting of the scopes of the source."""
import re
from view import World
import lib
from prog import short
from tokens import short_mod

# which scope is innermost when these sub-parsers are called; everything else runs in the scope of its caller
OPENS = {
    ('parse_block', 'parse_formal_params'): 'Block',
    ('parse_block', 'parse_begin'): 'Block',
    ('parse_block', 'parse_comp_stmt'): 'Block',
    ('parse_lambda_literal', 'parse_formal_params'): 'Block',
    ('parse_lambda_literal', 'parse_comp_stmt'): 'Block',
    ('parse_lambda_literal', 'parse_begin'): 'Block',
    ('parse_def', 'parse_def_params'): 'Method',
    ('parse_def', 'parse_begin'): 'Method',
    ('parse_class', 'parse_begin'): 'Class',
    ('parse_singleton_class', 'parse_begin'): 'Class',
    ('parse_for', 'parse_comp_stmt'): 'For',
}
INSERTS = {'Block': 'insert_block_param', 'KWRest': 'insert_kwrest_param', 'Delegate': 'insert_delegate_param'}
CAP = 3
# a name is equal to the name in the table, and all names are compared
APPROX = {'starts_with', 'ends_with', 'eq_ignore_ascii_case', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase',
          'to_ascii_uppercase', 'trim', 'skip', 'skip_while', 'step_by', 'take', 'take_while', 'chunks', 'windows'}
ASSIGNABLE = {'LocalVar', 'InstanceVar', 'GlobalVar', 'SpecialVar', 'ClassVar', 'Const', 'Index', 'MethodCall', 'DiscardLhs'}


def walk(v, init, step):
    """runs a path automaton over the events of v; step(state, event) -> state or None (stop)"""
    seen = {(0, init)}
    w = [(0, init)]
    while w:
        x, s = w.pop()
        if x in v.exits:
            step(s, ('exit', v.exits[x]), x)
            continue
        for e, b in v.trans[x]:
            n = s if e is None else step(s, e, b)
            if n is None:
                continue
            if (b, n) not in seen:
                seen.add((b, n))
                w.append((b, n))
    return len(seen)


def kinds(W, m):
    ty = W.E.ty_of_def('parser::ScopeKind')
    return W.P.atom_names(ty, m)


def resolution(W, rep, v):
    """how a name is looked up, from the innermost scope outwards"""
    ev = [e for _, e, _ in v.events()]
    look = [e for e in ev if e[0] == 'lvar' and e[1] == 'get_lvarid']
    if not look:
        return
    if not any(e[0] == 'stk-end' for e in ev):
        rep.cov.setdefault('resolution_not_judged', []).append(v.label)
        return
    rep.count('resolution_functions')
    co = v.coreach_ok()
    seenext = [False]

    def bad(key, msg):
        rep.violation('%s %s' % (key, v.name), 'in %s: %s' % (v.label, msg))

    C = {'For': 0, 'Block': 1, 'Eval': 2, 'Method': 3, 'Class': 3}

    def outward(s):
        """what follows the scope of state ('K', depth, kinds): the next scope, or the end of the search"""
        if s[2] is None:
            return 'unknown', s[1]
        cs = {C[x] for x in s[2]}
        if len(cs) > 1:
            bad('kinds', 'scopes of the kinds %s are treated alike when a name is looked up' % ', '.join(s[2]))
            return None, s[1]
        rep.count('scope_kinds')
        c = cs.pop()
        return ('next', 'next', 'open', 'closed')[c], s[1] + (c == 1)

    def step(s, e, b):
        # states: idle | K depth kinds (not found in this scope) | found depth | end open/closed kinds | ins | ext
        k = e[0]
        if b not in co and k != 'exit':
            return None
        if k == 'lvar' and e[1] == 'get_lvarid':
            rep.count('lookups')
            if 'outermost' in str(e[2]):
                bad('order', 'scopes are searched from the outermost one')
            d = 0
            if s[0] == 'K':
                w, d = outward(s)
                if w == 'unknown':
                    bad('kind', 'the search goes on without regard to the kind of scope')
                elif w in ('open', 'closed'):
                    bad('kind', 'the search goes on beyond a scope of the kind %s' % ', '.join(s[2]))
            return ('found', d) if e[4] == 'Some' else ('K', d, None)
        if k == 'scopekind':
            ks = tuple(kinds(W, e[1]))
            if s[0] == 'K':
                if s[2] is None or set(ks) < set(s[2]):
                    return ('K', s[1], ks)
                w, d = outward(s)
                # the kind of another scope
                return ('end', w, ks) if w in ('open', 'closed') else s
            if s[0] == 'end':
                return ('end', s[1], ks)
            return s
        if k == 'stk-end':
            if s[0] == 'K':
                w, d = outward(s)
                if w == 'unknown':
                    bad('kind', 'the search goes on without regard to the kind of scope')
                return ('end', 'open' if w != 'closed' else w, None)
            return s
        if k in ('extern', 'build', 'nt', 'tok', 'exit') or k == 'lvar' and e[1] == 'insert':
            if s[0] == 'K' and (k != 'exit' or e[1][0] in ('Ok', 'val')):
                w, d = outward(s)
                if w in ('unknown', 'next'):
                    bad('early', 'the search for a name stops before all visible scopes were searched')
                    return None
                if w is None:
                    return None
                s = ('end', w, s[2] if k == 'lvar' else None)
        if k == 'extern':
            if s[0] == 'end' and s[1] == 'closed':
                bad('extern', 'a name is looked up in the outer context from inside a method or class body')
            seenext[0] = True
            return ('ext',) if e[1] == 'Some' else s
        if k == 'lvar' and e[1] == 'insert':
            rep.count('insertions')
            if s[0] == 'end':
                if s[2] is None:
                    bad('target', 'a variable is added without regard to the kind of the scope')
                elif 'For' in s[2]:
                    bad('target', 'a variable is added to the scope of a for loop')
            if 'outermost' in str(e[2]):
                bad('order', 'a variable is added to the outermost scope')
            return ('ins',)
        dep = None
        if k == 'build' and e[1] == 'NodeKind.LocalVar':
            dep = e[2][0]
        elif k == 'build' and e[1] == 'NodeKind.For':
            m = re.match(r'\[\(([^,()]*),tok\.Ident\.0\)\]$', e[2][0])
            dep = m.group(1) if m else None
        if dep is not None and s[0] != 'idle':
            rep.count('depths')
            want = None
            if s[0] == 'found':
                want = str(s[1]) if s[1] <= CAP else '?'
            elif s[0] == 'ins':
                want = '0'
            elif s[0] == 'ext':
                want = 'extern'
            if s[0] == 'end':
                bad('unbound', 'a name that was not found is taken for a variable')
            elif dep != want and dep != '?':
                bad('depth', 'a variable found %s gets the depth %s'
                    % ('%d block(s) further out' % s[1] if s[0] == 'found' else 'elsewhere (%s)' % s[0], dep))
            return s
        if k == 'build' and e[1] in ('NodeKind.Ident',) and s[0] in ('found', 'ext') and 'NumberedParam' not in e[2][0]:
            if not e[2][0].startswith('tok.Const'):
                bad('ignored', 'a variable that was found is taken for a method call')
            return s
        if s[0] == 'found' and s[1] > CAP + 2:
            return ('found', CAP + 2)
        return s

    def bounded(s, e, b):
        n = step(s, e, b)
        if n and n[0] in ('K', 'found') and n[1] > CAP + 1:
            n = (n[0], CAP + 1) + n[2:]
        return n
    rep.count('path_states', walk(v, ('idle',), bounded))
    if not seenext[0] and any(e[0] == 'extern' for _, e, _ in v.events()) is False:
        bad('no extern', 'names of the outer context are not visible')


def binds(W, rep, v, what, accept):
    """every identifier read by v is bound before anything else is parsed"""
    idm = W.mask('Ident')
    co = v.coreach_ok()

    def bad(key, msg):
        rep.violation('%s %s' % (key, v.name), 'in %s: %s' % (v.label, msg))

    def close(s, where):
        if s[0] == 'open':
            bad('unbound', 'the name of a %s is not entered in the table of variables before %s' % (what, where))
        elif s[0] == 'ins' and s[2]:
            want = INSERTS.get(s[2], 'insert_new')
            if s[1] != want:
                bad('param kind', 'a %s parameter is entered with %s' % (s[2], s[1]))
            else:
                rep.count('parameters_bound')

    def step(s, e, b):
        if e[0] == 'exit':
            if e[1][0] in ('Ok', 'val'):
                close(s, 'the end')
            return None
        if e[0] == 'lvar' and e[1].startswith('insert_') and e[4] == 'None' and b in co:
            bad('duplicate', 'a name that is in the table already is accepted')
            return None
        if b not in co:
            return None
        if e[0] == 'tok' and e[1] & idm and not e[1] & ~idm:
            rep.count('names_bound')
            if s[0] == 'pre':
                return ('ins',) + s[1:]
            close(s, 'the next name')
            return ('open', '', '')
        if e[0] == 'nt':
            close(s, e[1])
            return ('idle', '', '') if s[0] == 'open' else s
        op = None
        if e[0] == 'lvar' and e[1] in accept and any('Ident' in a for a in e[3]) and not (e[1] == 'get_lvarid' and e[4] == 'None'):
            op = e[1]
        if e[0] == 'extern' and e[1] == 'Some' and 'get_lvarid' in accept:
            op = 'get_lvarid'
        if op:
            if s[0] == 'open':
                return ('ins', op, s[2])
            # the name was looked at, but is not passed yet
            close(s, 'the next name')
            return ('pre', op, '')
        if e[0] == 'lvar' and e[1] == 'insert_delegate_param':
            return ('ins', e[1], s[2] if s[0] != 'ins' else '')
        if e[0] == 'build' and e[1].startswith('ParamKind.'):
            k = e[1].split('.')[1]
            if k == 'Delegate':
                if s[0] == 'ins' and s[1] == 'insert_delegate_param':
                    return (s[0], s[1], k)
                close(s, 'the next parameter')
                return ('open', '', k)
            if k == 'Rest' and e[2][0] == 'None':
                return s
            if k != 'Destruct':
                return (s[0], s[1], k)
        return s
    rep.count('path_states', walk(v, ('idle', '', ''), step))


def table(W, rep):
    """the operations on the table: (e)"""
    import table as T
    E = T.TableEngine(W.P)
    fns = {short(p): p for p in W.P.fns if short_mod(p).startswith('lvar_collector') and '{' not in p}

    def bad(f, msg):
        rep.violation('table %s' % f, 'rule e: %s: %s' % (fns[f], msg))

    def paths(f):
        g = E.run_fn(fns[f])
        out = []
        w = [(0, ())]
        while w:
            x, ev = w.pop()
            if x in g.exits:
                out.append((ev, g.exits[x]))
                continue
            if len(ev) > 12 or len(out) > 200:
                raise T.core.AnalysisError('paths')
            w += [(b, ev + tuple(e)) for e, b in g.out[x]]
        return out
    FIELD = {'insert_new': None, 'insert': None, 'insert_block_param': 'block', 'insert_kwrest_param': 'kwrest',
             'insert_delegate_param': 'forwarding_param'}
    for f, field in FIELD.items():
        if f not in fns:
            rep.cov.setdefault('table_not_judged', []).append(f)
            continue
        ps = paths(f)
        if any(e[0] in ('unknown', 'change') for ev, _ in ps for e in ev):
            rep.cov.setdefault('table_not_judged', []).append(f)
            continue
        for ev, d in ps:
            if d[0] != 'exit':
                continue
            rep.count('table_paths')
            has = {e[2] for e in ev if e[0] == 'has'}
            push = [e[1] for e in ev if e[0] == 'push']
            names = {e[1] for e in ev if e[0] == 'has'} | set(push)
            if len(has) != 1:
                bad(f, 'the name is entered without looking for it' if push else 'the table is not searched')
                continue
            if len(names) > 1 and '?' not in names:
                bad(f, 'looks for %s but enters %s' % tuple(sorted(names)))
            ret, ch = d[1], dict(d[2])
            if has == {1}:
                if push:
                    bad(f, 'a name that is in the table is entered again')
                if ret != '?' and ret != ('found' if f == 'insert' else 'None'):
                    bad(f, 'returns %s for a name that is in the table' % ret)
                if ch:
                    bad(f, 'changes %s for a name that is in the table' % ', '.join(ch))
            else:
                if len(push) != 1:
                    bad(f, 'a new name is entered %d times' % len(push))
                elif '?' not in ret and ret.replace('len:0', 'idx:0') != ('idx:0' if f == 'insert' else 'Some(idx:0)'):
                    bad(f, 'returns %s for a new name' % ret)
                if set(ch) - {field}:
                    bad(f, 'changes %s' % ', '.join(sorted(set(ch) - {field})))
                if field and ch.get(field) not in ('Some(idx:0)', 'Some(len:0)', '?', 'Some(?)'):
                    bad(f, '%s becomes %s' % (field, ch.get(field)))
    for f, want in (('block_param', 'block'), ('block', 'block'), ('kwrest_param', 'kwrest'), ('len', 'len:0'), ('table', 'tbl:0')):
        if f in fns:
            for ev, d in paths(f):
                rep.count('table_paths')
                if '?' not in d[1] and d[1] != want and d[1] != 'old:' + want:
                    bad(f, 'returns %s' % d[1])
    for p in W.P.fns:
        if short_mod(p).startswith('lvar_collector') and 'get_lvarid' in p:
            for c in W.P.callees[p]:
                rep.count('lookup_calls')
                if short(c) in APPROX:
                    bad('get_lvarid', 'a name is looked up with %s' % c)


def run(rep):
    W = World()
    W.stats(rep)
    unsure = {v.label: w for v in W.views.values() for w in [W.unsure(v)] if w}
    if unsure:
        rep.cov['contexts_not_judged'] = unsure
    allv = [v for v in W.views.values() if v.label not in unsure]

    # (a) every construct closes the scopes it opened
    for v in allv:
        for d in v.exits.values():
            if d[0] in ('Ok', 'val'):
                rep.count('success_exits')
                for n, x in d[3]:
                    if n == 'scope':
                        rep.violation('unbalanced %s' % v.name, 'rule a: %s returns with the scopes changed: %s' % (v.label, x))
        for a, e, b in v.events():
            if e[0] == 'underflow' and b in v.coreach_ok():
                rep.violation('underflow %s' % v.name, 'rule a: %s closes a scope that it did not open' % v.label)

    # (b) bodies are parsed in a scope of their own, of the right kind; everything else in the scope of the caller
    used = set()
    for v in allv:
        if v.name == 'parse':
            continue
        co = v.coreach_ok()
        for a, e, b in v.events():
            if e[0] != 'nt' or b not in co:
                continue
            sc = dict(e[5]).get('scope')
            if sc is None:
                continue
            rep.count('calls')
            k = (v.name, e[1])
            want = (OPENS[k],) if k in OPENS else ()
            if k in OPENS:
                used.add(k)
            if sc and sc[0] == '?':
                rep.count('calls_not_judged')
                continue
            if sc != want:
                rep.violation('scope %s->%s' % k, 'rule b: %s calls %s %s, expected: %s' % (
                    v.label, e[1], 'in a new scope %s' % '/'.join(sc) if sc else 'in the scope of the surrounding text',
                    'a new scope %s' % want[0] if want else 'the scope of the surrounding text'))
    # the tree of a body holds the table of its scope
    for v in allv:
        co = v.coreach_ok()

        def step(s, e, b):
            if e[0] == 'exit' or b not in co:
                return None
            if e[0] == 'lvar' and e[1] == 'clone':
                return 'copied'
            if e[0] in ('nt', 'lvar') and s == 'copied':
                return 'stale'
            if e[0] == 'build' and e[1].startswith('BlockInfo.') and len(e[2]) > 2:
                rep.count('tables_in_the_tree')
                if e[2][2] == 'tablecopy' and s == 'stale':
                    rep.violation('table %s' % v.name, 'rule b: in %s: the body is recorded with a copy of the table of its scope '
                                  'that is made before the body is parsed' % v.label)
                elif e[2][2] not in ('scopetable', '?', '..', 'tablecopy'):
                    rep.violation('table %s' % v.name, 'rule b: in %s: the body is recorded with a table of variables that is not '
                                  'that of its scope: %s' % (v.label, e[2][2]))
            return s
        walk(v, '', step)
    rep.cov['bodies_with_a_scope'] = len(used)
    if not unsure:
        rep.floor('bodies_with_a_scope', 8)

    # (c) lookup order, visibility, depth and place of new variables
    for v in allv:
        resolution(W, rep, v)
    if not unsure and 'resolution_not_judged' not in rep.cov:
        rep.floor('lookups', 6)

    # (d) parameters, loop variables and assignment targets are bound before what follows them is parsed
    for v in allv:
        if v.name == 'parse_formal_params':
            binds(W, rep, v, 'parameter', ('insert_new', 'insert_kwrest_param', 'insert_block_param'))
        elif v.name == 'parse_for':
            binds(W, rep, v, 'loop variable', ('insert', 'get_lvarid'))
        elif v.name == 'check_lhs':
            for d in v.exits.values():
                if d[0] != 'Ok':
                    continue
                rep.count('targets')
                m = re.match(r'argnode:1\{(.*)\}$', d[5])
                if d[5].startswith('argnode:1') and (not m or '!' in m.group(1) or set(m.group(1).split('|')) - ASSIGNABLE):
                    rep.violation('target check_lhs', 'rule d: check_lhs accepts %s as the target of an assignment'
                                  % (', '.join(sorted(set(m.group(1).split('|')) - ASSIGNABLE)) if m else 'any expression'))
    # (e) the table itself
    table(W, rep)
    if not unsure:
        rep.floor('names_bound', 20)
    rep.explanation = ('Abstract interpretation of the MIR of every parsing function in every calling context. Rules: (a) the '
                       'stack of scopes is the same at every successful exit as at the entry; (b) the scope in which every '
                       'sub-parser is called; (c) a path automaton over the events of the search for a name (lookup hit or miss, kind of '
                       'scope, end of the scopes, outer context, insertion): innermost first, blocks counted, for loops transparent, '
                       'methods and classes closed, unknown names added to the innermost scope that is not a for loop, depth of the node equal '
                       'to the number of blocks crossed (exactly up to depth 3); (d) every parameter and loop variable is entered before '
                       'anything else is parsed, duplicates never succeed, and only assignable nodes are accepted as targets; (e) every '
                       'operation of the table searches for the name first, enters a new name exactly once, returns its index, and '
                       'marks it as what it is.')
