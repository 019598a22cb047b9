#!/bin/bash
# seedcheck.sh [ID...]: apply each planted bug to /repo, run the check of its property, undo; prints caught/missed
cd /verif; for id in ${@:-$(ls seeded)}; do p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
s=$(date +%s); out=$(timeout 890 python3 check.py $p 2>&1); rc=$?; git -C /repo checkout -q -- .
echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep -v VIOLATION | head -1 | cut -c1-150)"; done
