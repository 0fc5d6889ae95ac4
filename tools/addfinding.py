#!/usr/bin/env python3
# addfinding.py fixed|known ID REPLAYFILE COMMIT WHAT   (COMMIT may be - for known)
import json,sys,os
st,id,rep,commit,what=sys.argv[1:6]
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
p=os.path.join(root,"known_findings.json")
d=json.load(open(p)) if os.path.exists(p) else {"findings":[]}
r=json.load(open(rep))
e=dict(id=id,property=r["property"],facet=r["facet"],status=st,what=what)
if st=="fixed": e["record"]=f"fixed: property={r['property']} {commit} {what}"
e["case"]=r["case"]
d["findings"]=[x for x in d["findings"] if x["id"]!=id]+[e]
json.dump(d,open(p,"w"),indent=1,ensure_ascii=False); open(p,"a").write("\n")
