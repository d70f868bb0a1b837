#!/bin/bash
# tools/seed.sh ID...: validates planted bugs in a scratch copy of /repo (builds, stable tests pass, demo 0 -> nonzero),
# then runs the quick check of the property against the copy.
W=/tmp/seedw
for id in "$@"; do
  S=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  if [ ! -d $W ]; then mkdir -p $W; cp -a /repo $W/repo; rm -rf $W/repo/_build; fi
  cd $W/repo && git -C $W/repo reset -q --hard && git -C $W/repo fetch -q /repo HEAD && git -C $W/repo reset -q --hard FETCH_HEAD
  sed "s#/repo#$W/repo#g" /opt/vp/build.sh > $W/build.sh; sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/build.sh#g" /opt/vp/test.sh > $W/test.sh
  if [ -z "$NOBUILD" ]; then
  bash $W/build.sh >$W/b.log 2>&1 || echo "$id: clean build failed"
  bash $S/demo.sh >$W/demo0.log 2>&1; d0=$?
  git -C $W/repo apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $W/build.sh >$W/b.log 2>&1 || { echo "$id: patched build failed"; tail -5 $W/b.log; }
  bash $W/test.sh $W/o.json >/dev/null 2>&1
  bash $S/demo.sh >$W/demo1.log 2>&1; d1=$?
  python3 - $W/o.json "$id" $d0 $d1 <<'PY'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('passed') or b.get('stable') or b.get('tests') or []
miss=[t for t in base if t not in set(o['passed'])]
ok=not miss and sys.argv[3]=='0' and sys.argv[4]!='0'
print(sys.argv[2],"VALID" if ok else "INVALID","demo",sys.argv[3],sys.argv[4],"failing tests",len(miss),miss[:4])
PY
  else git -C $W/repo apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }; fi
  if [ -z "$NOCHECK" ]; then
    st=$(date +%s)
    for p in $P $EXTRA; do
    CISTA_REPO=$W/repo timeout 1000 python3 /verif/run.py $p --tier quick >$W/check.log 2>&1; rc=$?
    echo "$id $p rc=$rc $(( $(date +%s)-st ))s $(grep -m1 VIOLATION $W/check.log | cut -c1-200)"
    done
  fi
  git -C $W/repo reset -q --hard
done
