#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: one check per claimed property.
import json,os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
from claims import CLAIMS, NOT
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in CLAIMS:
        tech,note=CLAIMS[i]
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",technique=tech,level="exploration",level_note=note))
    else:
        na.append(dict(property=i,reason=NOT.get(i,"check not built yet")))
m=dict(version=1,setup_cmd="./check.sh setup",checks=checks,not_applicable=na,
  notes="All checks are property-based: generated inputs or histories against an explicit oracle, shrunk to a JSON replay file (./check.sh replay FILE). No hooks are needed in /repo.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
