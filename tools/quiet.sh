#!/bin/bash
# usage: quiet.sh [DIFF...] -- applies behaviour-preserving edits to a scratch copy and runs every claimed check (or $CHECKS); prints those that are not quiet
cd "$(dirname "$0")/.." || exit 2
(cd checker && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go build -o /tmp/qc .) || exit 2
ids=${CHECKS:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
[ $# = 0 ] && set -- tools/quiet/*.diff
for d in "$@"; do
  w=$(mktemp -d /tmp/quiet.XXXXXX); v=$(mktemp -d /tmp/quietv.XXXXXX); mkdir "$v/evidence"; cp known_findings.txt "$v/"
  git -C /repo archive HEAD | tar x -C "$w"; (cd "$w" && git init -q && git apply) < "$d" || { echo "$d does not apply"; }
  (cd "$w" && GOFLAGS=-mod=mod GOPROXY=off go build ./...) || echo "$d does not build"
  for i in $ids; do
    VERIF_DIR=$v VERIF_REPO=$w VERIF_VERBOSE=1 timeout 900 /tmp/qc $i > "$v/out" 2>&1; r=$?
    if [ $r != 0 ] || ! grep -q "0 undecided" "$v/out"; then echo "$(basename $d) $i exit $r"; cut -c1-200 "$v/out" | head -${LINES_MAX:-8}; fi
  done
  rm -rf "$w" "$v"
done
