#!/bin/bash
# seeded.sh [ID..]: apply each planted bug to /repo in turn, run its property's quick check, undo it.
cd /verif/seeded || exit 2
[ $# = 0 ] && set -- *
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(/verif/check.sh "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$id caught by $p: $(tail -1 <<<"$out")"; else echo "$id MISSED by $p (rc=$rc)"; fi
done
