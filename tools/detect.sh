#!/bin/bash
# detect.sh ID [CHECK...]: apply seeded/ID to /repo, run its property's check (or those named), undo.
id=$1; shift; root=$(cd "$(dirname "$0")/.." && pwd)
checks=${*:-$(python3 -c "import json;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")}
git -C /repo apply "$root/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in $checks; do
  s=$(date +%s); out=$("$root/check.sh" $c quick 2>&1); rc=$?
  echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c '^VIOLATION')v $(echo "$out" | grep -v '^---' | head -1 | cut -c1-120)"
done
find "$root/replay" -name '*.json' -delete
