#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json. CLAIMED lists the checks that exist in mc/."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta=json.load(open(os.path.join(root,"tools","checks.json")))
props=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
checks=[]; na=[]
for p in props:
    m=meta["checks"].get(p)
    if not m:
        na.append(dict(property=p,reason=meta["not_applicable"].get(p,"check not built yet")))
        continue
    checks.append(dict(property=p,quick_cmd=f"bash check.sh {p} quick",thorough_cmd=f"bash check.sh {p} thorough",
        evidence_file=f"evidence/{p}.json",technique=m["technique"],level=m["level"],level_note=m["note"]))
man=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
  hooks=dict(guard="none",enable="no hooks are compiled into /repo; the checks build /repo's working tree as it is (C22 instruments a scratch copy through go build -overlay)",source_commits=[]),
  notes=meta.get("notes",""))
json.dump(man,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"claimed",len(na),"not")
