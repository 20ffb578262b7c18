#!/bin/bash
# developer aid: run one case of a property with explicit parameters: run1.sh C05 case [TIME] [K=V ...]
cd /verif; P=$1; K=$2; T=${3:-60}; shift 3
python3 - "$P" "$K" "$T" "$@" <<'PY'
import sys,json,os
import vplib as V, cases as C
pid,name,t=sys.argv[1:4]; ov=dict((a.split("=")[0],int(a.split("=")[1])) for a in sys.argv[4:])
prop=C.PROPS[pid]; case=[c for c in prop["cases"] if c["name"]==name][0]
h=case.get("harness",prop["harness"]); bc,_=V.build_bitcode(h,case.get("rt",prop.get("rt",[])))
p=dict(case.get("params",{})); p.update(ov); p["CASE"]=case.get("id",0)
w=V.BUILD+"/dev"; os.makedirs(w,exist_ok=True)
r=V.run_engine(V.build_engine(),bc,p,float(t),0,outdir=w,tag="d%d"%os.getpid(),noleak=case.get("noleak",False),steps=case.get("steps",20000000),jobs=int(os.environ.get("JOBS","8")),pending=case.get("pending",200))
if "fatal" in r: print(r["fatal"]); sys.exit()
print(json.dumps(r["n"])); print("reached",r["reached"],"complete",r["complete"],"secs %.1f"%r["secs"]); print(r["stderr"][-300000:])
for e in r["errors"][:3]: print("ERR",e[:1500])
seen=set()
for v in r["violations"]:
    k=(v["kind"],v["msg"],v["trace"].split("\n")[0])
    if k in seen: continue
    seen.add(k)
    print("VIOL",v["kind"],v["msg"],"|",v["inputs"]); print(v["trace"][:1500])
PY
