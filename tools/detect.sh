#!/bin/bash
# bash tools/detect.sh ID [CHECK...]: applies a planted bug to /repo, runs the checks (default: its own property), undoes it
cd "$(dirname "$0")/.." || exit 1
id=$1; shift
checks=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
for c in $checks; do
  s=$(date +%s)
  VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 run.py "$c" --tier quick >/tmp/detect.out 2>&1
  echo "$id $c exit=$? $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/detect.out | cut -c1-150)"
done
git -C /repo checkout -- .
