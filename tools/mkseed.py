#!/usr/bin/env python3
"""mkseed.py FILE: FILE is python defining SEEDS=[dict(id,property,needs,breaks,edits=[(file,old,new)],main=go source)].
Writes seeded/ID (patch.diff against /repo's HEAD, demo.sh, main.go, meta.json)."""
import sys,os,subprocess,json,tempfile,shutil
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ns={}; exec(open(sys.argv[1]).read(),ns)
for s in ns["SEEDS"]:
    d=os.path.join(root,"seeded",s["id"]); os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix="/tmp/mkseed-")
    subprocess.check_call(["git","clone","-q","/repo",w+"/r"])
    for f,old,new in s["edits"]:
        p=os.path.join(w,"r",f); t=open(p).read()
        assert t.count(old)==1,(s["id"],f,t.count(old))
        open(p,"w").write(t.replace(old,new))
    diff=subprocess.check_output(["git","-C",w+"/r","diff"]).decode()
    open(d+"/patch.diff","w").write(diff)
    if "main" in s: open(d+"/main.go","w").write(s["main"].lstrip())
    t=open(os.path.join(root,"tools","demo.sh.tmpl")).read()
    open(d+"/demo.sh","w").write(t); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
    shutil.rmtree(w)
