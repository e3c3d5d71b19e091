#!/bin/bash
# run the repository's tests and say whether the stable ones still pass
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'E'
import json
t=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[x for x in b['stable'] if x not in t['passed']]
print('STABLE-OK' if not miss else 'BROKEN %s'%miss)
E
