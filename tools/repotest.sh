#!/bin/bash
# Builds /repo, runs its tests and compares with the baseline.
bash /opt/vp/build.sh > /tmp/repotest.log 2>&1 || { tail -30 /tmp/repotest.log; exit 1; }
bash /opt/vp/test.sh /tmp/repotest.json > /tmp/repotest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/repotest.json'))
def names(x):
    for k in ('passed','stable','tests'):
        if isinstance(x.get(k),list): return set(map(str,x[k]))
    return {k for k,v in x.items() if v in (True,'passed','pass')}
bb,rr=names(b),names(r)
print(len(bb),'baseline;',len(rr),'passed; missing:',sorted(bb-rr)[:20])
P
git -C /repo status --short
