"""Bounded model checking (cbmc + SAT solver) of the tokenizer in utilities/utility_io for every text of up to N bytes.
run(...) -> dict(queries=[...], violations=[(label,input,err)], notes=[...])"""
import os,re,subprocess,time,shutil
from concurrent.futures import ThreadPoolExecutor
D=os.path.dirname(os.path.abspath(__file__))
def sh(c,t=600): return subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors="replace",timeout=t)
MODES=["EatWord","Eat(delimiter)","EatEnd"]
def run(SRC,incs,work,thorough,limit):
    w=work+"/text"; os.makedirs(w,exist_ok=True); notes=[]; q=[]; viol=[]
    u=SRC+"/utilities/utility_io.cxx"
    if not os.path.exists(u): return {"queries":q,"violations":viol,"notes":["utility_io.cxx is not there: tokenizer not encoded"]}
    t=open(u,errors="replace").read(); t=re.sub(r'#\s*include\s*"(?:utilities/)?error.h"','#include "kerr.h"',t); open(w+"/utility_io_copy.cxx","w").write(t)
    shutil.copy(SRC+"/utilities/utility_io.h",w+"/utility_io.h")
    er=sorted(set(re.findall(r"\bError_\w+",t))); open(w+"/kerr.h","w").write("namespace KDL {\n"+"".join(f"struct {e}{{int x;}};\n" for e in er)+"}\n")
    conf=[(0,5 if thorough else 4,3),(1,6 if thorough else 5,1),(2,6 if thorough else 5,1)]
    def one(c):
        m,n,cap=c; g=f"{w}/m{m}.gb"; t0=time.time()
        try: r=sh(["goto-cc",f"-DNN={n}",f"-DCAP={cap}",f"-DMODE={m}","-DVX_CBMC",f"-I{D}/stub",f"-I{w}",D+"/spec.cpp","-o",g],120)
        except Exception as e: return c,"notenc",str(e),0
        if r.returncode or not os.path.exists(g) or "error" in r.stderr: return c,"notenc",(r.stderr+r.stdout)[-300:],0
        cmd=["cbmc",g,"--unwind",str(n+3),"--no-standard-checks","--slice-formula","--trace","--verbosity","8"]
        if shutil.which("kissat"): cmd+=["--external-sat-solver","kissat"]
        try: r=sh(cmd,limit)
        except subprocess.TimeoutExpired: return c,"timeout","",time.time()-t0
        return c,("ok" if "VERIFICATION SUCCESSFUL" in r.stdout else "cex" if "VERIFICATION FAILED" in r.stdout else "notenc"),r.stdout,time.time()-t0
    with ThreadPoolExecutor(3) as ex: res=list(ex.map(one,conf))
    for (m,n,cap),st,o,dt in res:
        q.append({"function":MODES[m],"bytes":n,"buffer":cap,"answer":{"ok":"holds for every text","cex":"counterexample","timeout":"no answer in time","notenc":"not encoded"}[st],"seconds":round(dt,1)})
        if st=="notenc": notes.append(f"{MODES[m]}: the bounded model checker could not encode it: "+o.strip()[-200:])
        if st!="cex": continue
        nat=f"{w}/n{m}"; r=sh(["g++","-g","-fsanitize=address",f"-DNN={n}",f"-DCAP={cap}",f"-DMODE={m}"]+incs+[D+"/spec.cpp",u,"-x","c++","-o",nat],300)
        if r.returncode: notes.append("replay program does not build: "+r.stderr[-300:]); continue
        hit=False
        for part in re.split(r"\nTrace for ",o)[1:] or [o]:
            vals={}
            for a,b in re.findall(r"^\s*T\[(\d+)l?\]=(\d+)",part,re.M): vals[int(a)]=int(b)
            ln=re.findall(r"^\s*LEN=(-?\d+)",part,re.M); cp=re.findall(r"^\s*cap=(-?\d+)",part,re.M)
            if not ln: continue
            tx="".join("%02x"%vals.get(i,0) for i in range(int(ln[-1]))); cv=cp[0] if cp else str(cap)
            rr=sh([nat,cv,tx],30)
            if "FAIL" in rr.stdout or "AddressSanitizer" in rr.stderr:
                lab=(re.findall(r"FAIL (.*)",rr.stdout) or ["memory error"])[0]; viol.append((f"{MODES[m]}: {lab}",f"bytes(hex)={tx} buffer={cv}",rr.stderr[:1500])); hit=True; break
        if not hit: notes.append(f"{MODES[m]}: counterexample of the model checker did not reproduce in the real code")
    return {"queries":q,"violations":viol,"notes":notes}
if __name__=="__main__":
    import sys,json; R=os.environ.get("VX_REPO","/repo")+"/orocos_kdl/src"; os.makedirs("/tmp/tc",exist_ok=True); print(json.dumps(run(R,[f"-I{R}",f"-I{R}/utilities","-I"+(sys.argv[1] if len(sys.argv)>1 else R)],"/tmp/tc",False,300),indent=1))
