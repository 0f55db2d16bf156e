"""mk.py: create a seed: edits in /tmp/seedwt, demo, meta"""
import json, os, subprocess, sys
WT="/tmp/seedwt"
def seed(id, edits, demo, prop, needs, breaks):
    subprocess.run(["git","-C",WT,"checkout","-q","--","."],check=True)
    for f,old,new in edits:
        p=os.path.join(WT,f); s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old))
        open(p,"w").write(s.replace(old,new))
    d=f"/verif/seeded/{id}"; os.makedirs(d,exist_ok=True)
    open(d+"/demo.py","w").write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
    print(subprocess.run(["bash","/verif/tools/mkseed.sh",id],capture_output=True,text=True).stdout)
