#!/bin/bash
# every check on the current tree: id, exit code, last line
cd "$(dirname "$0")/.."
ids="$@"; [ -z "$ids" ] && ids=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
for p in $ids; do python3 check.py $p > /tmp/all.out 2>&1; rc=$?; echo "$rc $(tail -1 /tmp/all.out | cut -c1-180)"; done
