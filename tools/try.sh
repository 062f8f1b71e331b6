#!/bin/bash
# try.sh BUG [CHECK..]: run the checks (default: that of the bug's property) with the planted bug applied
b=$1; shift
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
cs=${*:-$p}
git -C /repo diff --quiet || { echo "repo dirty"; exit 9; }
git -C /repo apply /verif/seeded/$b/patch.diff || exit 9
for c in $cs; do
  out=$(timeout 900 bash /verif/check.sh $c quick 2>&1); rc=$?
  echo "$b $c rc=$rc $(echo "$out" | grep -m2 VIOLATION)"
done
git -C /repo checkout -q -- .
