#!/bin/bash
# tryseed.sh ID...  : validates seeded bugs: demo passes clean, patch builds, stable tests pass, demo fails, check reports.
V=/verif
for id in "$@"; do
  d=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.clean 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -n "$NOSTABLE" ]; then bash /opt/vp/build.sh >/tmp/bld.log 2>&1 && st=built || st=BUILDFAIL
  else bash $V/tools/stable.sh >/tmp/stable.log 2>&1 && st=stable-ok || st=STABLE-FAIL; fi
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.patched 2>&1); b=$?
  t0=$(date +%s)
  (cd $V && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $prop >/tmp/check.$id 2>&1); c=$?
  t1=$(date +%s)
  git -C /repo checkout -- .
  echo "$id prop=$prop clean=$a $st patched=$b check=$c ($((t1-t0))s) $(grep -m1 VIOLATION /tmp/check.$id | cut -c1-160)"
done
bash /opt/vp/build.sh >/tmp/bld.log 2>&1
