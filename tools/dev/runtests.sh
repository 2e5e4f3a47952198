#!/bin/bash
bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x):
    for k in ('stable','passed','tests'):
        if k in x: return x[k]
    return x
pass_b=names(b)
res=o.get('results',o)
p=set(o.get('passed',[])) if 'passed' in o else {k for k,v in res.items() if v in('pass','passed',True,'PASS','ok')}
miss=[t for t in pass_b if t not in p]
print('baseline',len(pass_b),'missing',miss)
P
