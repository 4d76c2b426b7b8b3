#!/bin/bash
# seedrun.sh ID [CHECK] : run the check of the planted change's property (or CHECK) against it
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 1
s=$(date +%s); (cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py $p > /tmp/sr_$1.log 2>&1); rc=$?
echo "$1 $p rc=$rc $(($(date +%s)-s))s"; grep -a VIOLATION /tmp/sr_$1.log | head -3
git -C /repo checkout -q -- .
