#!/bin/bash
# Builds /repo and compares its test results with the baseline.
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { tail -40 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json > /dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass','reliable','tests'):
            if k in x: 
                v=x[k]
                return set(v) if isinstance(v,list) else {t for t,r in v.items() if r in (True,'pass','ok','passed')}
    return set(x)
B,O=passed(b),passed(o)
print('baseline',len(B),'now',len(O),'missing',sorted(B-O)[:10])
P
