#!/bin/bash
# tools_seed.sh <id>: confirm a planted bug kept in seeded/<id>: builds, tests pass, demo fails with it and passes without; runs the check
# works in a scratch copy of /repo; the check runs against /repo with the patch applied and reverted afterwards
set -u
ID=$1; S=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
T=$(mktemp -d /tmp/seedXXXXXX)
mkdir $T/d; cp $S/* $T/d/; rm -f $T/d/*.diff $T/d/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
( timeout 300 bash $T/d/demo.sh >$T/o1 2>&1 ); R1=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >$T/b 2>&1 || { tail -20 $T/b; git checkout -- .; echo "build failed"; exit 2; }
bash /opt/vp/test.sh $T/t.json >/dev/null 2>&1; TS=$(python3 -c "
import json;d=json.load(open('$T/t.json'));print(len(d['failed']) if isinstance(d['failed'],list) else d['failed'])")
( timeout 300 bash $T/d/demo.sh >$T/o2 2>&1 ); R2=$?
cd /verif; timeout 900 python3 check.py $PROP quick >$T/c 2>&1; RC=$?
git -C /repo checkout -- .
echo "$ID: demo clean=$R1 patched=$R2 testfail=$TS check($PROP) rc=$RC"
if [ $R1 != 0 ]; then tail -5 $T/o1; fi
if [ $R2 = 0 ]; then tail -5 $T/o2; fi
if [ $RC != 1 ]; then tail -5 $T/c; else grep -A2 -m1 '^  \[' $T/c | cut -c1-300; fi
python3 - <<P
import json
m=json.load(open('$S/meta.json')); m['caught']='$PROP' if $RC==1 else 'missed by $PROP'
json.dump(m,open('$S/meta.json','w'),indent=1)
P
rm -rf $T
(cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1)
