#!/bin/bash
# tryseed.sh ID...: runs the check of the planted bug's property against it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  ( cd /verif && timeout 900 python3 check.py $p > /tmp/try_$id.out 2>&1; echo "$id $p exit $? $(grep VIOLATION /tmp/try_$id.out)"; grep 'not discharged' /tmp/try_$id.out | head -${N:-3} | cut -c1-220 )
  git -C /repo checkout -- .
done
