#!/usr/bin/env python3
"""Writes spec/baseline.json: signature and callees of every function, used to recognise a function that was renamed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/analysis')
import lib
from prog import Prog
P = Prog(os.path.join(lib.dump(), 'lib.json'))
out = {p: P.signature(p) for p in sorted(P.fns) if P.nameable(p)}
json.dump(out, open(V + '/spec/baseline.json', 'w'), indent=0, sort_keys=True)
print(len(out), 'functions')
