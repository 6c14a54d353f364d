#!/bin/bash
# tryseed.sh [ID...]: applies each seeded patch to /repo, runs the check of its property (or $CHECKS), undoes it.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    ./check $c > /tmp/try.log 2>&1; rc=$?
    echo "$id: $c exit=$rc $(grep -m1 'VIOLATED:' /tmp/try.log | cut -c1-150) $(grep -m1 undecided: /tmp/try.log | cut -c1-140)"
  done
  git -C /repo checkout -- .
done
