"""Reference grammar: loads /verif/spec/syntax.py and compares it with the analysed functions."""
import os
import lib
from grammar import RefGrammar, NFA, Comparer, code_nfa, Syntax


class Ref:
    def __init__(self, W):
        self.W = W
        self.cmp = Comparer(W)
        poss = W.tok_names(self.cmp.poss)
        self.G = RefGrammar(poss, W.tok_names(self.cmp.sep))
        self.rules = {}            # label -> NFA factory
        self.group = {}
        self.cur = None
        env = {'R': self.R, 'M': self.M, 'group': self.setgroup, 'macro': self.G.define, 'tokens': self.defset}
        p = os.path.join(lib.VERIF, 'spec', 'syntax.py')
        exec(compile(open(p).read(), p, 'exec'), env)
        self.views = {v.label: v for v in W.views.values()}

    def setgroup(self, g):
        self.cur = g

    def defset(self, name, text):
        self.G.sets[name] = self.G.tokset(text)

    def R(self, label, text):
        self.rules[label] = lambda: self.G.build(text)
        self.group[label] = self.cur

    def M(self, label, start, rules, acc):
        self.rules[label] = lambda: self.G.machine(start, rules, acc)
        self.group[label] = self.cur

    def mentions(self, label):
        """parsing functions the rule refers to"""
        return {s[1] for t in self.rules[label]().tr for s, _ in t if s and s[0] == 'n'}

    def check(self, label):
        v = self.views.get(label)
        if v is None:
            return None
        try:
            spec = self.cmp.spec_masks(self.rules[label]())
        except Syntax as e:
            raise lib.Broken('reference grammar of %s: %s' % (label, e))
        return self.cmp.compare(code_nfa(v, spec), spec)


def load(W):
    return Ref(W)
