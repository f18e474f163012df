#!/bin/bash
# seedtest.sh ID [notest] : confirm a planted bug in /repo (applies, builds, demo, tests), run the check, and undo it
cd /verif; S=seeded/$1; R=/tmp/seedtest.$1; rm -rf "/tmp/seedtest.$1"; mkdir -p $R
undo () { git -C /repo checkout -q -- . ; }
trap 'undo; bash /opt/vp/build.sh >/dev/null 2>&1; rm -rf "/tmp/seedtest.'$1'"' EXIT
cp -r $S $R/d
bash /opt/vp/build.sh > $R/b0 2>&1 || { echo "base build failed"; exit 1; }
(cd /repo && bash $R/d/demo.sh > $R/demo0 2>&1); echo "demo on unchanged tree: rc=$? (want 0)"; tail -2 $R/demo0
git -C /repo apply /verif/$S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $R/b1 2>&1 || { echo "PATCHED BUILD FAILED"; tail -5 $R/b1; exit 1; }
(cd /repo && bash $R/d/demo.sh > $R/demo1 2>&1); echo "demo with the change: rc=$? (want nonzero)"; grep -v "^$" $R/demo1 | tail -4 | cut -c1-200
if [ -z "$2" ]; then bash /opt/vp/test.sh $R/t.json > $R/t.log 2>&1; python3 - $R/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
s=b.get('stable_passed') or b.get('passed') or b.get('stable'); p=set(t['passed'])
m=[x for x in s if x not in p]; print("stable tests failing with the change:",m)
P
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick python3 check.py $P > $R/c.log 2>&1; rc=$?
echo "check $P: rc=$rc (want 1) in $(( $(date +%s)-s ))s"; grep -m3 "VIOLATION" $R/c.log; grep -m2 "^C[0-9]*: " $R/c.log | cut -c1-300
