#!/bin/bash
# runs the stable tests of /repo and prints those that no longer pass
bash /opt/vp/test.sh /tmp/stable_out.json >/dev/null 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/stable_out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print(len(b['stable']),'stable;', len(m),'missing',m[:10])
P
