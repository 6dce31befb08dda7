#!/bin/bash
# builds /repo and runs its stable tests; prints those that did not pass
bash /opt/vp/build.sh >/tmp/vp-build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/vp-build.log; exit 1; }
mkdir -p /tmp/res
bash /opt/vp/test.sh /tmp/res/o.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/res/o.json'))
m=[k for k in b['stable'] if k not in o['passed']]
print('stable',len(b['stable']),'not passing',m)"
