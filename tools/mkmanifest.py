#!/usr/bin/env python3
"""Generates MANIFEST.json from the harnesses present (claimed) and NA reasons (not claimed)."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
NA={}
nf=V+"/tools/not_applicable.json"
if os.path.exists(nf): NA=json.load(open(nf))
checks=[];na=[]
for p in props:
    i=p["id"]; h=f"{V}/harness/{i}.cpp"
    if os.path.exists(h) and i not in NA:
        m=re.search(r"//\s*BOUNDS:(.*)",open(h).read()); b=m.group(1).strip() if m else "no loops depend on the inputs: all values of the stated real inputs"
        checks.append(dict(property=i,quick_cmd=f"python3 check.py {i} --tier quick",thorough_cmd=f"python3 check.py {i} --tier thorough",evidence_file=f"evidence/{i}.json",
          technique="symbolic execution of the compiler's IR of the real code; algebraic normaliser and SMT solver (z3) decide every assertion on every path; counterexamples replayed in a native build",
          level="model_checking",
          level_note="Bounds: "+b+". Assumes: double arithmetic read over the reals (no rounding/overflow); trusts the compiler front end, the IR instrumentation pass, the symbolic runtime and the solver, cross-checked by replaying path witnesses natively. Undecided assertions and cut paths, if any, are listed in the evidence and are outside the claim."))
    else: na.append(dict(property=i,reason=NA.get(i,"no check built yet")))
json.dump(dict(version=1,setup_cmd="python3 check.py --setup",checks=checks,not_applicable=na,notes="see DESIGN.md"),open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not")
