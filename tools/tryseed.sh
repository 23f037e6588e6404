#!/bin/bash
# tryseed.sh ID... : run the check of each planted change's property against it
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  out=$(cd /verif && ./check $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $id ($p): rc $rc"; echo "$out" | tail -4 | cut -c1-260
done
