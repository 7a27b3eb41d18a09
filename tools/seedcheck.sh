#!/bin/bash
# seedcheck.sh ID...: run the property's check on each planted bug, applied to /repo (undone straight afterwards)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  bash /verif/run.sh $p quick >/tmp/sw/$id.check 2>/tmp/sw/$id.checkerr; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -c ^VIOLATION /tmp/sw/$id.check) $(grep ^VIOLATION /tmp/sw/$id.check | head -1)"
done
