#!/bin/bash
# runs the repo's tests and compares with the stable list
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1 || tail -20 /tmp/rt.log
python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/rt.json'))
print("stable", len(b), "missing", sorted(b-set(o['passed']))[:10])
PY
