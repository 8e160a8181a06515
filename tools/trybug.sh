#!/bin/bash
# trybug.sh ID...: applies each planted bug to /repo, runs its property's quick check, undoes it
for id in "$@"; do
 d=/verif/seeded/$id
 p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
 s=$(date +%s)
 timeout 900 /verif/check.sh $p quick > /tmp/trybug.$id.log 2>&1; rc=$?
 git -C /repo checkout -q -- .
 echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/trybug.$id.log)"
done
