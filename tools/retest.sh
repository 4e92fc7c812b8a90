#!/bin/bash
# builds and runs the stable tests; prints those of the baseline that do not pass
bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/vp-out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vp-out.json'))
def names(x):
    for k in ('stable','passed','tests','pass'):
        if k in x: 
            v=x[k]; return set(v if isinstance(v,list) else [n for n,s in v.items() if s in ('passed','pass',True)])
    return set(n for n,s in x.items() if s in ('passed','pass'))
B,O=names(b),names(o)
print(len(B),len(O),'missing:',sorted(B-O)[:20])
P
cd /repo && git status --short
