#!/bin/bash
# tryseed.sh NAME...: applies each seeded change to /repo, runs its property's check, and undoes it
cd /verif
for n in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$n/patch.diff || { echo "$n does not apply"; continue; }
  bin/check.py $p > /tmp/try-$n.txt 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$n $p rc=$rc $(grep -E 'reproduced|ERROR' /tmp/try-$n.txt | head -1 | cut -c1-220) $(grep wall /tmp/try-$n.txt | grep -o '[0-9]* s wall')"
done
