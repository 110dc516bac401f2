#!/bin/bash
# builds /repo and runs its tests; prints stable tests that do not pass
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
bad=[x for x in b['stable'] if x not in o['passed']]
print(len(o['passed']), 'passed; stable failing:', bad)
raise SystemExit(bool(bad))
P
