#!/bin/bash
# trybug.sh ID [nobuild]: applies seeded/ID in a scratch copy, demo on both trees, stable
# tests (in /repo, undone afterwards), the property's quick check on the copy
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
W=$(mktemp -d /tmp/tb.XXXXXX); cp -a /repo/. $W/; 
(cd $W; bash $D/demo.sh >/dev/null 2>&1; echo "$1 demo clean rc=$?")
git -C $W apply $D/patch.diff || { echo APPLY FAILED; }
(cd $W; bash $D/demo.sh 2>&1 | tail -2; echo "$1 demo patched rc=${PIPESTATUS[0]}")
if [ "$2" != nobuild ]; then
 git -C /repo apply $D/patch.diff && bash /opt/vp/build.sh >/tmp/bl.log 2>&1; echo "build rc=$?"
 bash /opt/vp/test.sh /tmp/to.json >/dev/null 2>&1; git -C /repo checkout -q -- .
 python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/to.json'))
s=str(b)[:0]
def tests(d):
    for k in ('stable','pass','passed','tests','passing'):
        if k in d: return d[k]
    return list(d)
st=set(map(str,tests(b))); p=set(map(str,tests(t)))
print('stable',len(st),'missing',list(st-p)[:5])
X
fi
(cd /verif; time VP_REPO=$W python3 check.py ${3:-$P} 2>&1 | grep -v undecided | cut -c1-220 | tail -7)
rm -r $W
