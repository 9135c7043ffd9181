#!/bin/bash
# Confirms planted bugs: seedtest.sh ID... ; patch applies, builds, stable tests pass, demo fails with it (and passes without), then the check's verdict.
cd /verif; trap 'git -C /repo checkout -q -- .' EXIT
stable() { bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo build-FAILED; return 1; }; bash /opt/vp/test.sh /tmp/seed.out >/dev/null 2>&1; python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed.out'))
m=set(b['stable'])-set(o['passed'])
print('tests-ok' if not m else 'tests-FAILED %s'%m)
P
}
demo() { d=$(mktemp -d); cp -r /verif/seeded/$1/. $d; rm -f $d/*.diff $d/meta.json; (cd /repo; timeout 300 bash $d/demo.sh >$d/log 2>&1; echo $?; tail -2 $d/log >&2); rm -rf "$d"; }
if [ "$1" = clean ]; then shift; stable; for b in "$@"; do echo "$b clean demo rc=$(demo $b)"; done; exit; fi
for b in "$@"; do
  git -C /repo checkout -q -- .
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  t=$(stable); r=$(demo $b); p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  c=$(VERIF_SEED=1 python3 check.py $p 2>&1 | tee /tmp/seed.check.$b | grep -E "VIOLATION|CHECK-ERROR" | head -1); s=$(tail -1 /tmp/seed.check.$b | cut -c1-100)
  echo "$b: $t demo rc=$r check: ${c:-MISSED} | $s"
  git -C /repo checkout -q -- .
done
