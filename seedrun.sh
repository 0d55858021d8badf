#!/bin/bash
# development aid: applies each planted bug to /repo in turn, runs its own property's check (or the given one), undoes it
cd /verif
for d in ${1:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  out=$(python3-vt check.py ${2:-$p} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$out" | grep VIOLATION | head -1)"
done
