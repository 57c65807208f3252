#!/bin/bash
# usage: trybug.sh ID: applies seeded/ID to /repo, runs its property's check, undoes it
id=$1
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
p=${2:-$p}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
bash /verif/check.sh $p quick 2>/dev/null | grep -v '^KNOWN' | tail -4; rc=${PIPESTATUS[0]}
git -C /repo checkout -- .
echo "$id $p rc=$rc"
