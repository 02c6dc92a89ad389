#!/bin/bash
# build + test /repo and report whether every stable test passes
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/o.json'))
m=b-set(o['passed']); print('stable',len(b),'missing',sorted(m))
P
