#!/bin/bash
# run the stable tests of /repo and report any that do not pass
bash /opt/vp/test.sh /tmp/stable_out.json >/tmp/stable.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/stable_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=b['stable'] if isinstance(b['stable'],list) else list(b['stable'])
p=set(o['passed'])
bad=[t for t in s if t not in p]
print('stable %d, not passing: %s'%(len(s),bad))
P
