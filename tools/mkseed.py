#!/usr/bin/env python3
"""mkseed.py FILE...: (re)generates /verif/seeded/<id>/ from definition files (python dicts) under tools/seeds."""
import sys, os, subprocess, json, textwrap, tempfile
V="/verif"; R="/repo"
DEMO='''#!/bin/bash
# runs demo_test.go inside /repo/%(mod)s/%(pkg)s through an overlay
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
unset GOROOT GOWORK
O=$(mktemp)
echo '{"Replace":{"/repo/%(mod)s/%(pkg)s/zz_demo_test.go":"'"$D"'/demo_test.go"}}' > "$O"
cd /repo/%(mod)s && timeout 250 go test -count=1 -vet=off -overlay "$O" -run '^TestSeedDemo$' ./%(pkg)s
'''
def mk(id, prop, edits, mod, pkg, test, needs, breaks):
    d=f"{V}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    diff=""
    byfile={}
    for f,old,new in edits:
        s=byfile.get(f) or open(f"{R}/{f}").read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        byfile[f]=s.replace(old,new)
    for f,s in byfile.items():
        t=tempfile.NamedTemporaryFile("w",delete=False); t.write(s); t.close()
        p=subprocess.run(["git","diff","--no-index","--",f"{R}/{f}",t.name],capture_output=True,text=True).stdout
        lines=p.split("\n")
        i=[k for k,l in enumerate(lines) if l.startswith("@@")][0]
        diff+=f"diff --git a/{f} b/{f}\n--- a/{f}\n+++ b/{f}\n"+"\n".join(lines[i:])
        os.unlink(t.name)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.sh","w").write(DEMO%dict(mod=mod,pkg=pkg)); os.chmod(d+"/demo.sh",0o755)
    open(d+"/demo_test.go","w").write(textwrap.dedent(test).lstrip())
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    print("made",id)
for f in sys.argv[1:]:
    exec(open(f).read())
