#!/usr/bin/env python3
"""tools/fixed.py PROP TEXT [COMMITISH]: enter the repair commit (default: HEAD of /repo) in known_findings.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, text = sys.argv[1:3]
c = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short=7', sys.argv[3] if len(sys.argv) > 3 else 'HEAD'], text=True).strip()
f = os.path.join(V, 'known_findings.json')
k = json.load(open(f))
k['findings'] = [x for x in k['findings'] if x['id'] != '%s-%s' % (prop, c)]
k['findings'].append(dict(id='%s-%s' % (prop, c), property=prop, status='fixed', commit=c, what='fixed: property=%s %s %s' % (prop, c, text)))
json.dump(k, open(f, 'w'), indent=1)
