#!/bin/bash
# tryseed.sh ID...: runs the check of the planted bug's property with the bug applied to /repo.
for id in "$@"; do
d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
bash /verif/check.sh ${CHECK:-$p} ${TIER:-quick} -noev > /tmp/w/try.out 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$id (${CHECK:-$p}): rc=$rc $(grep -A1 '^VIOLATION' /tmp/w/try.out | grep -v VIOL | cut -c1-150 | head -3 | tr '\n' '|') $(tail -1 /tmp/w/try.out | grep -o 'explore.*' | cut -c1-100)"
done
