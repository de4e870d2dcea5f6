#!/bin/bash
# tryseed.sh SEED...: apply each planted bug to /repo, run its property's check, undo (development helper)
cd /verif
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s DOES NOT APPLY"; continue; }
  t0=$(date +%s); out=$(python3-vt check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(( $(date +%s)-t0 ))s | $(echo "$out" | grep -E 'VIOLATION|failing input|failed obl' | sed 's,replay=.*json,,' | sort -r | head -3 | tr '\n' ';' | cut -c1-330)"
done
