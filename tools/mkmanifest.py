#!/usr/bin/env python3
# Source of /verif/MANIFEST.json (regenerate with: python3 tools/mkmanifest.py)
import json,os,sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
from props import PROPS
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
NA=getattr(__import__("props"),"NA",{})
m={"version":1,"setup_cmd":"python3 -m py_compile rvdrv.py check.py props.py",
 "checks":[dict(property=i,quick_cmd=f"python3 check.py {i} --tier quick",thorough_cmd=f"python3 check.py {i} --tier thorough",
    technique=PROPS[i]["technique"],level="exploration",level_note=PROPS[i]["level_note"],evidence_file=f"evidence/{i}.json") for i in ids if i in PROPS],
 "not_applicable":[dict(property=i,reason=NA.get(i,"no check built yet")) for i in ids if i not in PROPS],
 "notes":"Every check is check.py: it compiles its harness from /repo's working tree with sanitizers, runs it in shards, and judges the executions with oracles written independently of the library. See DESIGN.md."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]),"checks,",len(m["not_applicable"]),"not applicable")
