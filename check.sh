#!/bin/bash
# check.sh <property> <quick|thorough>   run one check against /repo's working tree
# check.sh replay <file>                 re-run one stored failure
# check.sh setup                         warm the build cache
# Exit 0: held; 1: VIOLATION line printed; anything else: error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
. "$VERIF_ROOT/env.sh"
bin_of() {
  case "$1" in
    C01|C02|C03|C04|C05|C06|C07|C08) echo vtree ;;
    C09|C1[0-6]|C24|C28) echo vxsd ;;
    C17|C18|C19|C2[0-3]|C25|C26|C29) echo vgen ;;
    C27) echo vdep ;;
    *) echo "" ;;
  esac
}
build() { # build <binary> <dir>
  local out
  if ! out=$(go build -C "$VERIF_ROOT/harness" -o "$2/$1" "./cmd/$1" 2>&1); then
    echo "check.sh: cannot build $1 against /repo:" >&2
    echo "$out" >&2
    return 1
  fi
}
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
if [ "$1" = setup ]; then
  for b in vtree vxsd vgen vdep; do
    [ -d "harness/cmd/$b" ] || continue
    build "$b" "$work" || exit 2
  done
  exit 0
fi
if [ "$1" = replay ]; then
  prop=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
  b=$(bin_of "$prop"); [ -n "$b" ] || { echo "no property in $2" >&2; exit 2; }
  build "$b" "$work" || exit 2
  "$work/$b" replay "$2"
  exit $?
fi
b=$(bin_of "$1"); [ -n "$b" ] || { echo "unknown property $1" >&2; exit 2; }
tier=${2:-quick}
build "$b" "$work" || exit 2
if [ "$1" = C23 ]; then # the commands it runs
  go build -C "$VERIF_ROOT/harness" -o "$work/" aqwari.net/xml/cmd/xsdgen aqwari.net/xml/cmd/wsdlgen || exit 2
  export VERIF_BIN="$work"
fi
if [ "$1" = C28 ]; then
  go build -C "$VERIF_ROOT/harness" -o "$work/" aqwari.net/xml/cmd/xsdparse || exit 2
  export VERIF_BIN="$work"
fi
"$work/$b" run "$1" "$tier"
