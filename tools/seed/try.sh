#!/bin/bash
# try.sh ID…: runs the property's check against the seeded change in a scratch copy of /repo
for i in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
 git -C /tmp/seedrepo checkout -q -- . ; git -C /tmp/seedrepo apply /verif/seeded/$i/patch.diff || continue
 SIA_REPO=/tmp/seedrepo bash /verif/check.sh $p > /tmp/try.out 2>&1; rc=$?
 echo "$i $p rc=$rc $(grep -c 'no-failing-input' /tmp/try.out) | $(grep VIOLATION /tmp/try.out | head -1 | cut -c1-150) | $(grep -i 'reach\|failed obl\|obligation' /tmp/try.out | head -2 | tr '\n' ' '| cut -c1-300)"
 git -C /tmp/seedrepo checkout -q -- .
done
