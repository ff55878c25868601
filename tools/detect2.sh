#!/bin/bash
# detect2.sh ID [CHECK..]: run the checks on a scratch copy of /repo with the planted change (development only)
B=$1; shift
V="$(cd "$(dirname "$0")/.." && pwd)"
[ $# = 0 ] && set -- $(python3 -c "import json,sys;print(json.load(open('$V/seeded/$B/meta.json'))['property'])")
W=$(mktemp -d); cp -a /repo "$W/r"; git -C "$W/r" apply "$V/seeded/$B/patch.diff" || echo "patch does not apply"
for c in "$@"; do
  VP_DEV_REPO=$W/r VP_DEV_OUT=$W/o VP_DEV_FIRST=1 /opt/venv/bin/python "$V/run.py" "$c" > "$W/log" 2>&1; rc=$?
  echo "$B $c rc=$rc $(grep -c ^VIOLATION "$W/log") violations, spaces: $(grep -o '^\[[a-z-]*\]' "$W/log" | sort | uniq -c | tr '\n' ' ')"
done
rm -rf "$W"
