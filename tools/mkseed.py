#!/usr/bin/env python3
"""usage: mkseed.py ID PROPERTY PKG < spec   -- writes /verif/seeded/ID from edits; spec is python with vars edits, test, needs, breaks
   edits: list of (file, old, new); test: go source of an in-package or external test using Test function TestDemo"""
import sys,os,json,subprocess,shutil
spec={n:open(os.path.dirname(os.path.abspath(__file__))+"/prelude_%s.txt"%n.lower()).read() for n in ("CONN","ROOT")}
spec["POOL"]=spec["ROOT"].replace("package goBolt","package routing")+open(os.path.dirname(os.path.abspath(__file__))+"/prelude_pool.txt").read()
exec(sys.stdin.read(),spec)
id,prop,pkg=sys.argv[1:4]
S="/verif/seeded/"+id
os.makedirs(S,exist_ok=True)
W="/tmp/mkseed."+id
shutil.rmtree(W,ignore_errors=True)
subprocess.check_call(["git","-C","/repo","worktree","add","-q","--detach",W,"HEAD"])
try:
    for f,o,n in spec["edits"]:
        p=os.path.join(W,f); s=open(p).read()
        c=spec.get("count",{}).get(f,1)
        assert s.count(o)>=1,(f,o)
        assert s.count(o)==1 or (f,o) in spec.get("multi",()),("ambiguous",f,o,s.count(o))
        s=s.replace(o,n); open(p,"w").write(s)
    subprocess.check_call(["gofmt","-l","."],cwd=W)
    open(S+"/patch.diff","w").write(subprocess.check_output(["git","-C",W,"diff"],text=True))
finally:
    subprocess.call(["git","-C","/repo","worktree","remove","--force",W])
open(S+"/demo_test.go.txt","w").write(spec["test"].lstrip())
open(S+"/demo.sh","w").write('''#!/bin/bash
# runs demo_test.go.txt as a test of %s (overlay, nothing is written to the repository)
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$r/%s/zz_demo_test.go\\": \\"$d/demo_test.go.txt\\"}}" > "$t/o.json"
timeout 250 go test -overlay "$t/o.json" -vet=off -count=1 %s -run '^TestDemo' ./%s
'''%(pkg,pkg,'-race' if spec.get('race') else '',pkg))
os.chmod(S+"/demo.sh",0o755)
json.dump({"property":prop,"needs":spec["needs"],"what_it_breaks":spec["breaks"]},open(S+"/meta.json","w"),indent=1)
