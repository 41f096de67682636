#!/bin/bash
# Rebuilds /repo and runs the stable tests; prints what regressed.
bash /opt/vp/build.sh >/tmp/fixbuild.log 2>&1 || { tail -30 /tmp/fixbuild.log; exit 1; }
bash /opt/vp/test.sh /tmp/fixout.json >/tmp/fixtest.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/fixout.json'));b=json.load(open('/opt/vp/BASELINE.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x and isinstance(x[k],list): return set(map(str,x[k]))
    return set(map(str,x)) if isinstance(x,list) else None
po,pb=passed(o),passed(b)
print('passed',len(po),'baseline',len(pb),'missing',sorted(pb-po)[:20])
P
