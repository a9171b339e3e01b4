#!/bin/bash
# rebuild /repo and compare its tests with the baseline
bash /opt/vp/build.sh >/tmp/rt.build 2>&1 || { tail -30 /tmp/rt.build; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.out 2>&1
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/rt.json'))
m=b-set(o['passed'])
print('baseline',len(b),'missing',len(m),sorted(m)[:10],'failed',o['failed'][:5])
sys.exit(1 if m else 0)
P
