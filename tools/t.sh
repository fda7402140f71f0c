#!/bin/bash
# build /repo, run its tests, compare with the stable list
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; echo BUILD-FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/out.json'))
bad=[t for t in b if t not in set(o['passed'])]
print('stable failing:',bad[:5],len(bad))
raise SystemExit(1 if bad else 0)
P
