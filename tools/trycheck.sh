#!/bin/bash
# development: run the check of planted bugs on a copy of /repo (usable while /repo must not be touched)
cd "$(dirname "$0")/.."; R=/tmp/try_repo_$$; 
for id in "${@:-$(ls seeded)}"; do cp -a /repo $R; git -C $R apply $PWD/seeded/$id/patch.diff || echo "apply failed"; p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])"); t0=$(date +%s); VERIF_REPO=$R python3 check.py $p > /tmp/try_$id.log 2>&1; rc=$?; echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -c ^VIOLATION /tmp/try_$id.log)"; rm -rf "$R"; done
