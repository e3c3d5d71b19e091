#!/usr/bin/env python3
"""tools/seed.py ID PROPERTY FILE 'needs' 'what' <<< python expression list: plants one change.

stdin: python source defining EDITS = [(old, new), ...] (each old must occur once) and DEMO = '''python program'''.
Makes the change in a copy of /repo, runs the repository's tests and the demonstration on both, keeps it if it counts,
then runs the property's quick check against it in /repo and undoes it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, needs, what = sys.argv[1:5]
src = sys.stdin.read()
g = {}
exec(src, g)
d = os.path.join(V, 'seeded', sid)
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'], text=True).strip(), '/repo not clean'
with open(os.path.join(d, 'demo.py'), 'w') as f:
    f.write(g['DEMO'].lstrip('\n'))
with open(os.path.join(d, 'demo.sh'), 'w') as f:
    f.write('''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" || exit 3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo" timeout 200 /opt/venv/bin/python "$here/demo.py"
''')
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def demo():
    p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout[-600:]


ok = True
rc, out = demo()
print('demo on the unchanged tree: %d %s' % (rc, out if rc else ''))
ok &= rc == 0
base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
try:
    for fn, old, new in g['EDITS']:
        p = os.path.join('/repo', fn)
        s = open(p).read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    # changed lines must be lines of the original repository
    for fn in set(e[0] for e in g['EDITS']):
        o = subprocess.run(['git', '-C', '/repo', 'show', base + ':' + fn], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:] not in o:
                print('NOT ORIGINAL: %s' % l)
                ok = False
    rc, out = demo()
    print('demo with the change: %d %s' % (rc, out))
    ok &= rc != 0
    if '--notest' not in sys.argv:
        t = subprocess.run(['bash', os.path.join(V, 'tools', 'rt.sh')], stdout=subprocess.PIPE, text=True).stdout.strip()
        print(t)
        ok &= t == 'STABLE-OK'
    if ok and '--nocheck' not in sys.argv:
        p = subprocess.run(['python3-vt', 'check.py', prop, '--tier', 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print('check: %d  %s' % (p.returncode, '\n'.join(l[:300] for l in p.stdout.splitlines()[:4])))
        print('CAUGHT' if p.returncode == 1 and 'VIOLATION property=%s' % prop in p.stdout else 'MISSED')
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
print('KEEP' if ok else 'DOES NOT COUNT')
if not ok:
    shutil.rmtree(d)
