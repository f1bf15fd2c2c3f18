#!/bin/bash
# try.sh ID...: apply a planted bug to /repo, run its property's check (or the checks in $CHECKS), undo
cd /verif
for id in "$@"; do
  p=${CHECKS:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
  for c in $p; do
    s=$(date +%s); python3 check.py $c --tier ${TIER:-quick} > /tmp/try.$id.$c.log 2>&1; r=$?
    echo "$id $c exit $r $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/try.$id.$c.log)"
  done
  git -C /repo checkout -q -- .
done
