#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and the list of properties."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+"/mc")
from checks import CHECKS,NOT_APPLICABLE
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
NOT_BUILT="no check has been built for it yet"
out=dict(version=1,setup_cmd="python3 mc/setup.py",
 hooks=dict(guard="none",enable="no hooks are needed: the checks compile /repo/src unchanged and interpose library calls at link time",source_commits=[]),
 checks=[],not_applicable=[],
 notes="./check <ID> [quick|thorough] runs one check; python3 mc/run.py --replay <file> repeats one reported violation. Defects repaired or recorded: known_findings.txt, DESIGN.md.")
for p in props:
    i=p["id"]
    if i in CHECKS:
        c=CHECKS[i]
        out["checks"].append(dict(property=i,quick_cmd="./check %s quick"%i,thorough_cmd="./check %s thorough"%i,
          technique=c.get("technique") or "model checking: exhaustive enumeration of operation/input sequences on the real code against a reference model",
          level=c["level"],level_note="Exhaustive within: "+c["bounds"]+(". Assumes: "+"; ".join(c["assumptions"]) if c["assumptions"] else "")+". Trusts the compiler, sanitizers and the reference model in harness/."))
    else: out["not_applicable"].append(dict(property=i,reason=NOT_APPLICABLE.get(i,NOT_BUILT)))
json.dump(out,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(out["checks"]),"checks",len(out["not_applicable"]),"not applicable")
