"""Loading of the MIR dump: functions, types, enum atoms, call graph, liveness."""
import json, os, re, functools


class Prog:
    def __init__(self, path, alias=None):
        text = open(path).read()
        for new, old in (alias or {}).items():
            # a function was renamed: the analysis knows it by its old name
            text = re.sub(re.escape(json.dumps(new)[1:-1]) + r'(?![A-Za-z0-9_])', lambda m: json.dumps(old)[1:-1], text)
        d = json.loads(text)
        self.alias = alias or {}
        self.types = d['types']
        self.fns = {}
        for f in d['fns']:
            if f.get('test'):
                continue
            f['joins'] = None
            self.fns[f['path']] = f
        self._enum = {}
        self._part = {}
        self.tyname = {}
        for i, t in enumerate(self.types):
            self.tyname.setdefault(t['name'], i)
        self.callees = {}
        for p, f in self.fns.items():
            self.callees[p] = self._callees(f)
        # closures are callees of the function that creates them
        for p in self.fns:
            if '{closure#' in p:
                par = p.rsplit('::{closure#', 1)[0]
                if par in self.callees:
                    self.callees[par].add(p)

    # ---------- recognition of renamed functions
    def nameable(self, p):
        f = self.fns[p]
        return f['kind'] in ('fn', 'method') and not f.get('derived') and '{' not in p

    def signature(self, p):
        f = self.fns[p]
        ts = [self.types[t]['name'] for t in f['locals'][:f['argc'] + 1]]
        cs = sorted({re.sub(r'::<.*?>', '', c).rsplit('::', 1)[-1] for c in self.callees[p]})
        return {'types': ts, 'callees': cs, 'blocks': len(f['blocks'])}

    def renamed(self, base):
        """{new path: old path} of the functions of the baseline that live on under another name"""
        here = {p for p in self.fns if self.nameable(p)}
        new = {p: self.signature(p) for p in here - set(base)}
        out = {}
        cand = []
        for old in sorted(set(base) - here):
            b = base[old]
            imp = old.rsplit('::', 1)[0]
            for p, s in new.items():
                if s['types'] != b['types'] or p.rsplit('::', 1)[0] != imp:
                    continue
                x, y = set(s['callees']) - {short(p)}, set(b['callees']) - {short(old)}
                j = len(x & y) / len(x | y) if x | y else 1.0 if s['blocks'] == b['blocks'] else 0.0
                k = min(s['blocks'], b['blocks']) / max(s['blocks'], b['blocks'])
                if j >= 0.6 and k >= 0.6:
                    cand.append((j + k, p, old))
        used = set()
        for _, p, old in sorted(cand, reverse=True):
            if p not in out and old not in used:
                out[p] = old
                used.add(old)
        return out

    # ---------- types
    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else None

    def tdef(self, i):
        t = self.ty(i)
        return t.get('def') if t else None

    def is_enum(self, i):
        t = self.ty(i)
        return bool(t) and t['k'] == 'adt' and t.get('adt') == 'enum'

    def is_struct(self, i):
        t = self.ty(i)
        return bool(t) and t['k'] == 'adt' and t.get('adt') == 'struct'

    def is_box(self, i):
        t = self.ty(i)
        return bool(t) and t.get('box')

    def field_ty(self, i, vidx, fidx):
        t = self.ty(i)
        if t is None:
            return -1
        if t['k'] == 'adt':
            vs = t['variants']
            v = vs[vidx if vidx is not None else 0]
            return v['fields'][fidx]['t'] if fidx < len(v['fields']) else -1
        if t['k'] in ('tuple', 'closure'):
            fs = t.get('fields') or []
            return fs[fidx] if fidx < len(fs) else -1
        return -1

    def inner(self, i):
        t = self.ty(i)
        if t is None:
            return -1
        if t.get('box'):
            return t['targs'][0]
        return t.get('inner', -1)

    def nvariants(self, i):
        return len(self.types[i]['variants'])

    def vindex(self, i, name):
        for k, v in enumerate(self.types[i]['variants']):
            if v['name'] == name:
                return k
        return None

    # ---------- enum atoms
    def pure_enum(self, i, depth=0):
        """local enum whose every variant is a unit or wraps exactly one pure enum"""
        t = self.ty(i)
        if not t or t['k'] != 'adt' or t.get('adt') != 'enum' or not t.get('local') or depth > 4:
            return False
        for v in t['variants']:
            if len(v['fields']) == 0:
                continue
            if len(v['fields']) == 1 and self.pure_enum(v['fields'][0]['t'], depth + 1):
                continue
            return False
        return True

    def atoms(self, i):
        """list of atoms; an atom is a tuple of variant indices (path of nested single-field variants)"""
        if i in self._enum:
            return self._enum[i]
        t = self.ty(i)
        res = None
        if t and t['k'] == 'bool':
            res = [(0,), (1,)]
        elif t and t['k'] == 'adt' and t.get('adt') == 'enum':
            res = []
            for k, v in enumerate(t['variants']):
                if len(v['fields']) == 1 and self.pure_enum(v['fields'][0]['t']):
                    for a in self.atoms(v['fields'][0]['t']):
                        res.append((k,) + a)
                else:
                    res.append((k,))
        self._enum[i] = res
        return res

    def full(self, i):
        a = self.atoms(i)
        return (1 << len(a)) - 1 if a is not None else None

    def part(self, i, path):
        """variant index -> bitmask of atoms, at nesting path (tuple of variant indices)"""
        key = (i, path)
        r = self._part.get(key)
        if r is None:
            r = {}
            n = len(path)
            for b, a in enumerate(self.atoms(i)):
                if a[:n] == path and len(a) > n:
                    r[a[n]] = r.get(a[n], 0) | (1 << b)
            self._part[key] = r
        return r

    def deep_child(self, i, path):
        """type at nesting path"""
        for v in path:
            fs = self.types[i]['variants'][v]['fields']
            i = fs[0]['t']
        return i

    def atom_names(self, i, mask):
        out = []
        for b, a in enumerate(self.atoms(i)):
            if mask >> b & 1:
                out.append(self.atom_name(i, a))
        return out

    def atom_name(self, i, a):
        s = []
        for v in a:
            t = self.types[i]
            if t['k'] == 'bool':
                s.append('true' if v else 'false')
                break
            s.append(t['variants'][v]['name'])
            fs = t['variants'][v]['fields']
            i = fs[0]['t'] if len(fs) == 1 else -1
        return '.'.join(s)

    # ---------- call graph
    def _callees(self, f):
        s = set()
        for b in f['blocks']:
            if b.get('c'):
                continue
            t = b['t']
            if t[0] == 'call':
                k = t[1]
                if k[0] == 'const' and k[1].get('k') == 'fn':
                    s.add(k[1].get('res') or k[1]['fn'])
            for o in self._fnconsts(b):
                s.add(o)
        return s

    def _fnconsts(self, b):
        out = []

        def walk(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == 'const' and isinstance(x[1], dict) and x[1].get('k') == 'fn':
                    out.append(x[1].get('res') or x[1]['fn'])
                else:
                    for y in x:
                        walk(y)
        for s in b['s']:
            walk(s)
        if b['t'][0] == 'call':
            walk(b['t'][2])
        return out

    def reach(self, roots, stop=lambda p: False):
        seen = set()
        st = list(roots)
        while st:
            p = st.pop()
            if p in seen or p not in self.fns:
                continue
            seen.add(p)
            if stop(p):
                continue
            st.extend(self.callees[p])
        return seen

    def sccs(self, nodes, removed=()):
        nodes = [n for n in nodes if n not in removed]
        ns = set(nodes)
        idx = {}
        low = {}
        stack = []
        on = set()
        out = []
        cnt = [0]
        import sys
        sys.setrecursionlimit(10000)

        def go(v):
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            stack.append(v)
            on.add(v)
            for w in self.callees[v]:
                if w not in ns:
                    continue
                if w not in idx:
                    go(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = stack.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                if len(c) > 1 or v in self.callees[v]:
                    out.append(c)
        for n in nodes:
            if n not in idx:
                go(n)
        return out

    # ---------- per function
    def succs(self, f, b):
        t = f['blocks'][b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[3]] + ([t[4]] if t[4] is not None and t[4] >= 0 else [])
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] >= 0 else []
        if k == 'assert':
            return [t[4]]
        return []

    def prepare(self, f):
        if f['joins'] is not None:
            return
        n = len(f['blocks'])
        preds = [0] * n
        for b in range(n):
            if f['blocks'][b].get('c'):
                continue
            for s in self.succs(f, b):
                preds[s] += 1
        f['joins'] = [p >= 2 for p in preds]
        # liveness (drops are uses); address-taken locals are live until StorageDead
        use = [None] * n
        dfn = [None] * n
        addr = set()
        for b in range(n):
            blk = f['blocks'][b]
            u = set()
            d = set()

            def usel(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1:]:
                    if e[0] == 'I' and e[1] not in d:
                        u.add(e[1])

            def op(o):
                if o[0] in ('cp', 'mv'):
                    usel(o[1])

            def rv(r):
                k = r[0]
                if k in ('use', 'repeat'):
                    op(r[1])
                elif k == 'ref':
                    usel(r[2])
                    if not any(e[0] == 'D' for e in r[2][1:]):
                        addr.add(r[2][0])
                elif k == 'rawptr':
                    usel(r[-1])
                    addr.add(r[-1][0])
                elif k == 'cast':
                    op(r[2])
                elif k == 'bin':
                    op(r[2])
                    op(r[3])
                elif k == 'un':
                    op(r[2])
                elif k == 'discr':
                    usel(r[1])
                elif k == 'agg':
                    for o in r[2]:
                        op(o)
            for s in blk['s']:
                if s[0] == '=':
                    rv(s[2])
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                    else:
                        usel(s[1])
                elif s[0] == 'dead':
                    d.add(s[1])
                elif s[0] == 'live':
                    d.add(s[1])
                elif s[0] == 'setdiscr':
                    usel(s[1])
            t = blk['t']
            if t[0] == 'switch':
                op(t[1])
            elif t[0] == 'drop':
                usel(t[1])
            elif t[0] == 'call':
                op(t[1])
                for o in t[2]:
                    op(o)
                if len(t[3]) == 1:
                    d.add(t[3][0])
                else:
                    usel(t[3])
            elif t[0] == 'assert':
                op(t[1])
            elif t[0] == 'return':
                if 0 not in d:
                    u.add(0)
            use[b] = u
            dfn[b] = d
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                if f['blocks'][b].get('c'):
                    continue
                o = set()
                for s in self.succs(f, b):
                    o |= live[s]
                x = use[b] | (o - dfn[b])
                if x != live[b]:
                    live[b] = x
                    changed = True
        f['live'] = live
        f['addr'] = addr
        # blocks from which the function only drops its locals and returns
        ep = [not f['blocks'][b].get('c') and f['blocks'][b]['t'][0] in ('goto', 'switch', 'drop', 'return') and
              all(s[0] in ('live', 'dead') or (s[0] == '=' and len(s[1]) == 1 and s[1][0] != 0 and
                                               (s[2][0] == 'discr' or (s[2][0] == 'use' and s[2][1][0] == 'c')))
                  for s in f['blocks'][b]['s']) and
              not (f['blocks'][b]['t'][0] == 'drop' and f['blocks'][b]['t'][1][0] == 0) for b in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n):
                if ep[b] and not all(ep[x] for x in self.succs(f, b)):
                    ep[b] = False
                    changed = True
        f['epilogue'] = ep


def short(p):
    return p.split('::')[-1]
