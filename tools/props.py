#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = {}
CHECK = {}


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, level='other', state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    PROPS.append({'id': id, 'title': title, 'statement': statement,
                  'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})
    if na:
        NA[id] = na
    else:
        CHECK[id] = (technique, level, note)


exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': p, 'quick_cmd': './run.sh ' + p, 'thorough_cmd': './run.sh ' + p, 'technique': t,
                 'level': l, 'level_note': n} for p, (t, l, n) in CHECK.items()],
     'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()]}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
