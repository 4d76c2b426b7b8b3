#!/bin/bash
# seedcheck.sh ID : confirm a planted change: applies, passes the stable tests, demo 0 clean / nonzero patched,
# removed lines all come from the original commit.
d=/verif/seeded/$1; cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
root=$(git rev-list --max-parents=0 HEAD)
python3 - "$d/patch.diff" $root <<'P'
import sys,subprocess,re
f=None;ln=0;bad=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: ln=int(m[1]); continue
    if l.startswith(('---','+++','diff','index')): continue
    if l.startswith('-'):
        b=subprocess.run(['git','blame','-l','-L%d,%d'%(ln,ln),'--',f],capture_output=True,text=True).stdout
        if not b.lstrip('^').startswith(sys.argv[2][:38]): bad+=1; print('NOT ORIGINAL:',b.strip())
        ln+=1
    elif l.startswith(' '): ln+=1
print('blame bad lines:',bad)
P
S=/tmp/sd_$1; mkdir -p $S; cp $d/* $S/; rm -f $S/patch.diff $S/meta.json
. /opt/vp/env.sh
(cd /repo; bash $S/demo.sh >$S/o1 2>&1; echo "demo clean rc=$?"; tail -2 $S/o1)
git apply --check $d/patch.diff && git apply $d/patch.diff
(cd /repo; bash $S/demo.sh >$S/o2 2>&1; echo "demo patched rc=$?"; tail -2 $S/o2)
bash /opt/vp/test.sh $S/t.json >$S/tl 2>&1; tail -1 $S/tl
python3 - $S/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); p=set(json.load(open(sys.argv[1]))['passed'])
s=b.get('passed') or b.get('stable') or b
print('stable failing:',[x for x in s if x not in p])
P
git checkout -q -- .; rm -rf /tmp/sd_$1
