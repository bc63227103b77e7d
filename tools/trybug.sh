#!/bin/bash
# trybug.sh ID...: run each planted bug's check with the patch applied to /repo, then undo it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && timeout 900 python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id ($p): exit $rc $(echo "$out" | grep VIOLATION)"
  [ -n "$V" ] && echo "$out" | tail -${V}
done
