#!/bin/bash
# detectc.sh ID...: like detect.sh, for several planted bugs, in scratch copies of /repo and /verif.
# CHECKS="C09 C10" overrides the checks to run.
root=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/detectc-XXXXXX); trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/verif/replay" "$w/tmp"
git clone -q /repo "$w/repo" || exit 2
cp -a "$root/harness" "$root/check.sh" "$root/env.sh" "$root/known_findings.json" "$w/verif/"
sed -i "s#=> /repo#=> $w/repo#" "$w/verif/harness/go.mod"
export TMPDIR="$w/tmp"
for id in "$@"; do
  git -C "$w/repo" checkout -q -- . ; git -C "$w/repo" apply "$root/seeded/$id/patch.diff" || continue
  checks=${CHECKS:-$(python3 -c "import json;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")}
  for c in $checks; do
    s=$(date +%s); out=$("$w/verif/check.sh" $c quick 2>&1); rc=$?
    echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c '^VIOLATION')v $(echo "$out" | grep -v '^---' | head -1 | cut -c1-120)"
  done
done
