#!/bin/bash
# plant.sh ID: confirm seeded/ID in a scratch copy of /repo: applies, builds,
# passes the stable tests, demo passes before and fails after.
id=$1; root=$(cd "$(dirname "$0")/.." && pwd); s=$root/seeded/$id
w=$(mktemp -d /tmp/plant-XXXXXX); trap 'rm -rf -- "$w"' EXIT
cp -a /repo "$w/repo"; cp -a "$s" "$w/demo"; cd "$w/repo" || exit 2
git checkout -q -- . ; git clean -fdq
( bash "$w/demo/demo.sh" >"$w/clean.out" 2>&1 ) || { echo "$id: demo fails on the clean tree"; tail -5 "$w/clean.out"; exit 1; }
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
. /opt/vp/env.sh 2>/dev/null
go build ./... || { echo "$id: does not build"; exit 1; }
pkgs=$(go list -e ./... | grep -v '/wsdlgen/examples/chemspell$')
mkdir "$w/tmp"
TMPDIR="$w/tmp" go test -json -vet=off -count=1 $pkgs > "$w/log" 2>/dev/null
python3 - "$w/log" <<'P' || { echo "$id: breaks stable tests"; exit 1; }
import json,sys
st=[s for s in json.load(open('/opt/vp/BASELINE.json'))['stable']]
res={}
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if 'Test' in d and d['Action'] in('pass','fail'): res[d['Package']+'/'+d['Test']]=d['Action']
bad=[]
for s in st:
    m=[k for k in res if k==s or s.endswith(k) or k.endswith(s)]
    if not m: bad.append(('?',s))
    elif any(res[k]!='pass' for k in m): bad.append(s)
if bad: print(bad); sys.exit(1)
P
if ( bash "$w/demo/demo.sh" >"$w/bug.out" 2>&1 ); then echo "$id: demo passes with the patch"; exit 1; fi
echo "$id: ok ($(tail -1 "$w/bug.out" | cut -c1-150))"
