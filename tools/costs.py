"""tools/costs.json from the evidence of the last runs"""
import glob, json, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=os.path.join(H,"tools","costs.json")
old=json.load(open(out)) if os.path.exists(out) else {}
for f in sorted(glob.glob(H+"/evidence/P*.json")):
    e=json.load(open(f)); c=e["coverage"]; d=old.setdefault(e["property"],{})
    w=sum(s.get("wall_s",0) for s in c["spaces"].values())
    if e["tier"]=="quick":
        d.update(histories=sum(s["histories"] for s in c["spaces"].values()),transitions=c["transitions"],states=c["states"],wall=round(w))
    else:
        d["thorough"]="%d histories, %d transitions, %d s"%(sum(s["histories"] for s in c["spaces"].values()),c["transitions"],w)
json.dump(old,open(out,"w"),indent=1,sort_keys=True)
