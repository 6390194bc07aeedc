"""Comparison of the parsing functions with the reference grammar and the syntax tree templates, by group of rules (C03..C07)."""
import os
from view import World
import lib
import refgrammar
import trees

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


def run_group(rep, group, floor_rules, floor_symbols, floor_terms):
    W = World()
    W.stats(rep)
    R = refgrammar.load(W)
    T = trees.Trees(os.path.join(SPEC, 'trees.py'))
    have = {v.label: v for v in W.views.values()}
    skipped = {}
    for lab in R.rules:
        if R.group[lab] != group:
            continue
        why = None
        if lab not in have:
            why = 'not called in this context'
            if lab.split('(')[0] not in W.foreign:
                # the callers say so as well, unless they could not be compared
                rep.count('contexts_not_reached')
        else:
            why = W.unsure(have[lab])
        missing = [n for n in W.foreign if W.foreign[n] == 'missing' and n in R.mentions(lab)]
        if not why and missing:
            why = 'refers to the missing %s' % ', '.join(missing)
        if why:
            skipped[lab] = why
            continue
        r = R.check(lab)
        diffs, ns, ny = r
        rep.count('rules_compared')
        rep.count('state_pairs', ns)
        rep.count('symbols_compared', ny)
        for d in diffs:
            rep.violation('%s: %s' % (lab, d.key), 'in %s after [%s]: %s' % (lab, ' '.join(d.word), d.what))
        out, n = T.check(W, have[lab])
        rep.count('tree_terms', n)
        for k, m in out:
            rep.violation('%s: tree: %s' % (lab, k), 'in %s: %s' % (lab, m))
    rep.cov['rules_not_compared'] = skipped
    if not skipped:
        rep.floor('rules_compared', floor_rules)
        rep.floor('symbols_compared', floor_symbols)
        rep.floor('tree_terms', floor_terms)
    elif len(skipped) > 12 and not rep.viol:
        raise lib.Broken('too many rules could not be compared: %s' % skipped)
    return W, R


EXPL = ('For every parsing function of the group and every calling context the automaton of its paths (tokens consumed, '
        'parsing functions called, tests on characters and modes, and the set of possible next tokens at every choice), '
        'obtained by abstract interpretation of the current MIR, is compared with the rule of the reference grammar '
        '(spec/syntax.py) by a product construction: in both directions, for every reachable pair of states. Every syntax '
        'tree node built or returned on those paths is matched, with the token or sub-parser each of its fields comes from, '
        'against the templates of spec/trees.py, and every template has to be met by some path.')
