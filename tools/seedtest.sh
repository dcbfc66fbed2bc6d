#!/bin/bash
# seedtest.sh ID...: plants each seeded bug in /repo, runs build, tests, demo
# and the property's check, and undoes it again.
cd /verif
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  (cd /repo && bash $S/demo.sh > /tmp/sd0.log 2>&1); d0=$?
  git -C /repo apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/sb.log 2>&1; b=$?
  t=$(bash /opt/vp/test.sh /tmp/seedtest.json 2>&1 | tail -1)
  (cd /repo && bash $S/demo.sh > /tmp/sd1.log 2>&1); d1=$?
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $P > /tmp/sc.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id: demo clean=$d0 bugged=$d1 build=$b tests='$t' check $P=$c $(grep VIOLATION /tmp/sc.log | cut -c1-80)"
done
bash /opt/vp/build.sh > /tmp/sb.log 2>&1
