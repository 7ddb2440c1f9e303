#!/usr/bin/env python3
"""mkseed.py FILE.py : FILE defines S(id, property, [(file, old, new)...], demo_main_body, needs, breaks, includes=...). Writes seeded/<id>/."""
import sys,os,json,subprocess,tempfile,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO='''#!/bin/bash
# exit 0: the property holds in the demonstrated situation; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
P=/repo/_build/install
g++ -std=c++14 -O1 -w -I"$P/include" -I"$P/include/kdl" -I/usr/include/eigen3 "$d/demo.cpp" -L"$P/lib" -lorocos-kdl -Wl,-rpath,"$P/lib" -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
'''
PYDEMO='''#!/bin/bash
# exit 0: the property holds in the demonstrated situation; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
B=/repo/_build
cd "$t" && LD_LIBRARY_PATH="$B/install/lib" PYTHONPATH="$B/py" PYTHONDONTWRITEBYTECODE=1 timeout 60 /usr/bin/python3 "$d/demo.py"
'''
PYHEAD='''import sys, math, copy, pickle
from PyKDL import *
bad = 0
def expect(w, ok):
    global bad
    if not ok: bad += 1; print("wrong:", w)
def near(w, a, b, e=1e-9): expect("%%s: %%.9g, expected %%.9g" %% (w, a, b), abs(a-b) <= e)
%s
sys.exit(1 if bad else 0)
'''
HEAD='''#include <kdl/frames.hpp>
#include <cmath>
#include <cstdio>
#include <sstream>
#include <vector>
%s
using namespace KDL;
static int bad=0;
static void expect(const char*w,bool ok){ if(!ok){ bad++; std::printf("wrong: %%s\\n",w); } }
static void near(const char*w,double a,double b,double e=1e-6){ if(!(std::fabs(a-b)<=e)){ bad++; std::printf("wrong: %%s: %%.9g, expected %%.9g\\n",w,a,b); } }
%s
int main(){
%s
return bad?1:0; }
'''
def S(id,prop,edits,body,needs,breaks,inc=(),pre="",repo="/repo"):
    d=f"{V}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    diff=""
    for f,o,n in edits:
        p=f"{repo}/{f}"; t=open(p,encoding="latin-1",newline="").read()
        if t.count(o)!=1: print(id,"pattern count",t.count(o),f); shutil.rmtree(d); return
    files={}
    for f,o,n in edits: files[f]=files.get(f,open(f"{repo}/{f}",encoding="latin-1",newline="").read()).replace(o,n)
    for f,t in files.items():
        with tempfile.NamedTemporaryFile("w",delete=False,encoding="latin-1",newline="") as g: g.write(t)
        r=subprocess.run(["diff","-u","--label","a/"+f,"--label","b/"+f,f"{repo}/{f}",g.name],stdout=subprocess.PIPE); diff+=r.stdout.decode("latin-1"); os.unlink(g.name)
    open(d+"/patch.diff","w",encoding="latin-1",newline="").write(diff)
    py=pre=="py"
    open(d+"/demo.sh","w").write(PYDEMO if py else DEMO); os.chmod(d+"/demo.sh",0o755)
    if py: open(d+"/demo.py","w").write(PYHEAD%body)
    else: open(d+"/demo.cpp","w").write(HEAD%("\n".join(f"#include <kdl/{i}>" for i in inc),pre,body))
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    print("wrote",id)
if __name__=="__main__":
    for a in sys.argv[1:]: exec(compile(open(a).read(),a,"exec"),{"S":S})
