"""DESIGN.md from bin/design.md.in and the tables"""
import json,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0,V+"/bin")
from props_table import T
p=[]
for t in T:
    if t.get("na"): p.append("### %s %s\nNot applicable: %s\n"%(t["id"],t["title"],t["na"])); continue
    p.append("### %s %s\n%s\n"%(t["id"],t["title"],t.get("design") or t["note"]))
fx=["* %s `%s` %s"%(k["property"],k["key"].split(":")[1],k["what"]) for k in json.load(open(V+"/known_findings.json"))["findings"] if k["status"]=="fixed"]
caught=json.load(open(V+"/bin/caught.json")) if os.path.exists(V+"/bin/caught.json") else {}
sd=["| bug | property | needs | caught by |","|---|---|---|---|"]
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d)); sd.append("| %s | %s | %s | %s |"%(i,m["property"],m["needs"],caught.get(i,"")))
s=open(V+"/bin/design.md.in").read().replace("@@PROPS@@","\n".join(p)).replace("@@FIXED@@","\n".join(fx)).replace("@@SEEDS@@","\n".join(sd))
open(V+"/DESIGN.md","w").write(s)
