#!/bin/bash
# tryseeds.sh [ID...]: apply each planted bug to /repo, run its property's quick check, undo.
cd /verif/seeded
[ $# -eq 0 ] && set -- *
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  out=$(cd /verif && timeout 900 ./check $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(grep -c "^VIOLATION property=$p " <<<"$out")"
  [ $rc -ne 1 ] && tail -3 <<<"$out"
done
