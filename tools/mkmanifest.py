#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTE:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i,
                           thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique='symbolic execution of the real Python code with z3 (path exploration + SMT assertion per path)',
                           level='model_checking', level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check built yet.')))
m = dict(version=1, setup_cmd='python3-vt selftest.py', checks=checks, not_applicable=na,
         notes='Every check imports /repo/pyverilog from the working tree, executes it symbolically (sx/engine.py) and asks z3 for a counterexample; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
