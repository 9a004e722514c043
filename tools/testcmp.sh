#!/bin/bash
# run the repository's tests and list stable tests that do not pass
bash /opt/vp/test.sh /tmp/vp_o.json > /tmp/vp_o.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/vp_o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=b['stable']; p=set(o['passed'])
print(len(st),'stable;', len(p),'passed; missing:',[x for x in st if x not in p][:20])
P
