#!/bin/bash
# seedpar.sh ID... : like seedtest.sh, but in the copies /tmp/vs (repository, build, tests) and /tmp/mv (checks)
R=/tmp/vs/repo
undo () { git -C $R checkout -q -- . ; }
for i; do
S=/verif/seeded/$i; T=/tmp/seedpar.$i; rm -rf "$T"; mkdir -p $T; cp -r $S $T/d
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
echo "=== $i ($P)"
bash /tmp/vs/opt/vp/build.sh > $T/b0 2>&1 || { echo "base build failed"; continue; }
(cd $R && bash $T/d/demo.sh > $T/demo0 2>&1); echo "demo unchanged: rc=$? (want 0)"; tail -2 $T/demo0 | cut -c1-200
git -C $R apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; continue; }
if bash /tmp/vs/opt/vp/build.sh > $T/b1 2>&1; then
(cd $R && bash $T/d/demo.sh > $T/demo1 2>&1); echo "demo changed: rc=$? (want nonzero)"; grep -v "^$" $T/demo1 | tail -3 | cut -c1-200
if [ -z "$NOTEST" ]; then bash /tmp/vs/opt/vp/test.sh $T/t.json > $T/t.log 2>&1; python3 - $T/t.json <<'Q'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
s=b.get('stable_passed') or b.get('passed') or b.get('stable'); p=set(t['passed'])
m=[x for x in s if x not in p]; print("stable tests failing with the change:",m)
Q
fi
if [ -z "$NOCHECK" ]; then
s=$(date +%s); (cd /tmp/mv2; VH_REPO=$R VERIF_SEED=1 VERIF_TIER=quick python3 check.py $P > $T/c.log 2>&1); rc=$?
echo "check $P: rc=$rc (want 1) in $(( $(date +%s)-s ))s"; grep -m2 "VIOLATION" $T/c.log | cut -c1-200; grep -m2 "^C[0-9]*: \|oracle\|  " $T/c.log | cut -c1-300
fi
else echo "PATCHED BUILD FAILED"; tail -5 $T/b1; fi
undo; rm -rf "$T"
done
bash /tmp/vs/opt/vp/build.sh >/dev/null 2>&1
