#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, tools/claims.json."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOUNDED=("C08","C18") # part of the property rests on a bounded run of its contract
props=[json.loads(l) for l in open(root+"/properties.jsonl") if l.strip()]
claims=json.load(open(root+"/tools/claims.json"))
m={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"none","enable":"no hooks: contracts are overlaid on /repo's packages at load time (go list -overlay / packages.Config.Overlay); nothing is added to /repo","source_commits":[]},
 "checks":[],"not_applicable":[],"notes":claims.get("notes","")}
for p in props:
    i=p["id"]
    if i in claims["claims"]:
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
          "technique":"contract-based deductive verification (own VC generator over go/ssa of /repo, z3/cvc5)"+("; the contract over whole histories is executed on the real code within a stated bound" if i in BOUNDED else ""),"level":"other" if i in BOUNDED else "proof","level_note":claims["claims"][i]})
    else:
        m["not_applicable"].append({"property":i,"reason":claims["not_applicable"][i]})
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
