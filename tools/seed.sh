#!/bin/bash
# usage: seed.sh ID [check...]  -- confirm a planted bug in a scratch copy and run the given checks (default: its property) against it
set -u
id=$1; shift
S=/verif/seeded/$id
prop=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/seedwork.$id; mkdir -p "$W"; R=$W/repo; D=$W/demo
cp -a /repo "$R"; mkdir -p "$D"; cp -a "$S/." "$D/"; rm -f "$D/patch.diff" "$D/meta.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cd "$R"
(timeout 300 bash "$D/demo.sh" >$W/demo0.log 2>&1); a=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; }
go build ./... || echo "$id: does not build"
go test -short -json -vet=off -count=1 -timeout 5m ./... > $W/t.json 2>/dev/null
python3 - "$W/t.json" <<'PY'
import json,sys
base=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
res={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get("Test") and e.get("Action") in("pass","fail"): res[e["Package"]+"/"+e["Test"]]=e["Action"]
fails=[k for k in base if res.get(k)!="pass"]
print("tests failing:",fails)
PY
(timeout 300 bash "$D/demo.sh" >$W/demo1.log 2>&1); b=$?
echo "$id ($prop): demo clean=$a patched=$b"
for c in ${@:-$prop}; do
  (cd /verif; VERIF_REPO=$R timeout 900 ./check.sh $c > $W/chk.$c.log 2>&1; echo "   check $c exit $?: $(grep -c '^VIOLATION' $W/chk.$c.log) violations"; grep '^VIOLATION' $W/chk.$c.log | head -2 | cut -c1-200)
done
tail -3 $W/demo1.log | cut -c1-200
rm -rf "/tmp/seedwork.$id"
