#!/usr/bin/env python3
import os, sys, json, argparse
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import rvdrv
from props import PROPS

def main():
    ap=argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier",default=os.environ.get("VERIF_TIER","quick"))
    ap.add_argument("--seed",type=int,default=int(os.environ.get("VERIF_SEED","1") or 1))
    ap.add_argument("--replay"); ap.add_argument("--cases",type=int)
    a=ap.parse_args()
    p=PROPS[a.prop]
    first=0
    if a.replay:
        r=json.load(open(a.replay)); a.seed=r["seed"]; a.tier=r["tier"]; first=int(r["case"]); a.cases=1
    res=rvdrv.Result(a.prop,a.tier,a.seed,p["rule"],p.get("assume",()))
    try:
        p["run"](res,p,a.cases,first)
        rc=res.finish(*( (1,0) if a.cases else (p.get("min_evals",1),p.get("min_distinct",2))))
    except rvdrv.CheckError as e:
        # a check that already observed a violation reports it even if a later stage broke
        if res.viols:
            try: sys.exit(res.finish(0,0))
            except rvdrv.CheckError: pass
        print("CHECK-ERROR",a.prop,str(e)[:8000]); sys.exit(3)
    sys.exit(rc)
main()
