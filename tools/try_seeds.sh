#!/bin/bash
# try_seeds.sh [ID...]: applies each seeded change to /repo in turn, runs its property's check (or
# those in $PROPS) and undoes it. Prints one line per run.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  for q in ${PROPS:-$p}; do
    t=$(date +%s)
    out=$(bash check.sh $q 2>&1); rc=$?
    echo "$d [$p] check $q: exit $rc $(( $(date +%s)-t ))s $(echo "$out" | grep -c "^VIOLATION property=$q ") $(echo "$out" | grep -B100000 '^VIOLATION' | grep -v '^  ' | grep -v '^VIOLATION\|^property=\|^minimised' | head -1 | cut -c1-150)"
  done
  git -C /repo checkout -q -- .
done
