#!/bin/bash
# tryseed.sh id...: runs the property's quick check with the planted bug applied to /repo
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  timeout 900 python3 /verif/check.py $p quick > /tmp/try.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(grep -m1 VIOLATION /tmp/try.log | cut -c1-160) $( [ $rc = 1 ] && grep -m1 'violat\|assert' /tmp/try.log | cut -c1-160)"
  [ $rc = 1 ] || tail -3 /tmp/try.log
done
