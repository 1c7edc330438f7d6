#!/bin/bash
# seedcheck.sh [id-prefix...]: applies each planted bug to /repo, runs its property's check, undoes it
cd /verif
for d in seeded/*/; do
  id=$(basename $d); m=0; [ $# = 0 ] && m=1; for a in "$@"; do case $id in $a*) m=1;; esac; done; [ $m = 1 ] || continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply /verif/$d/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  o=$(python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$o" | grep -m1 VIOLATION | cut -c1-120)"
done
