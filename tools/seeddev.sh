#!/bin/bash
# Quick look at planted bugs in a clone (SEED_REPO): demo without and with the patch, then the check. Stable tests are left to seedtest.sh.
R=${SEED_REPO:-/tmp/wr}; cd /verif
for b in "$@"; do
  d=/verif/seeded/$b; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  c=$(cd $R; timeout 300 bash $d/demo.sh 2>&1 | tail -1; exit ${PIPESTATUS[0]}); c0=$?
  git -C $R apply $d/patch.diff || { echo "$b does not apply"; continue; }
  m=$(cd $R; timeout 300 bash $d/demo.sh 2>&1 | tail -1; exit ${PIPESTATUS[0]}); c1=$?
  v=$(VERIF_DEV_REPO=$R SIM_TIME=${SIM_TIME:-30} python3 check.py $p 2>&1 | grep -E "VIOLATION|CHECK-ERROR|minimised" | tail -2 | cut -c1-170)
  git -C $R checkout -q -- .
  echo "$b $p clean=$c0 [$c] patched=$c1 [$m] :: ${v:-MISSED}"
done
