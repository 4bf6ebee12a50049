#!/bin/bash
# tools/seedtest.sh ID...: confirm planted changes in a scratch clone (/tmp/seedwork/repo, built by hand) and run the property's check on each.
W=/tmp/seedwork
for id in "$@"; do
  S=${VW:-/verif}/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C $W/repo checkout -q -- . && git -C $W/repo pull -q 2>/dev/null
  rm -rf $W/demo; mkdir $W/demo; cp $S/* $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
  (cd $W/repo && timeout 300 bash $W/demo/demo.sh) > $W/demo0.log 2>&1; d0=$?
  git -C $W/repo apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  t="-"
  if [ -z "$NOTEST" ]; then
    bash $W/vp/test.sh $W/out.json > $W/test.log 2>&1
    t=$(python3 - <<PY
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o=json.load(open('$W/out.json'))
p=set(o.get('passed') or [])
print('tests ok' if b<=p else 'TESTS FAIL: '+str(sorted(b-p)[:3]))
PY
)
  fi
  (cd $W/repo && timeout 300 bash $W/demo/demo.sh) > $W/demo1.log 2>&1; d1=$?
  VERIF_REPO=$W/repo timeout 900 python3 ${VW:-/verif}/check.py $P > $W/check.log 2>&1; c=$?
  v=$(grep -c "^VIOLATION property=$P" $W/check.log)
  git -C $W/repo checkout -q -- .
  [ $d0 = 0 ] && [ $d1 != 0 ] && d="demo ok" || d="DEMO BAD ($d0,$d1)"
  [ $c = 1 ] && [ $v -ge 1 ] && k=CAUGHT || k="MISSED(rc=$c)"
  echo "$id [$P]: $t; $d; $k $(grep -B2 '^VIOLATION' $W/check.log | head -1 | cut -c1-150)"
done
