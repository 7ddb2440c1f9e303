#!/usr/bin/env python3
"""Symbolic-execution check driver.   check.py PROPERTY [--tier quick|thorough] [--case NAME] [--keep]

Builds the harness and the KDL sources it needs from /repo's working tree twice (LLVM IR routed through the symbolic
runtime, and plainly), explores all paths symbolically, lets the solver decide the obligations, replays candidate
counterexamples in the plain build, and writes evidence/<property>.json."""
import sys,os,re,json,hashlib,subprocess,time,shutil,fnmatch,resource
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get("VX_REPO","/repo"); SRC=REPO+"/orocos_kdl/src"
NJ=os.cpu_count() or 8
T0=time.time()
def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors="replace",**k)
def fhash(paths):
    h=hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); 
        with open(p,"rb") as f: h.update(f.read())
    return h.hexdigest()[:16]
def walk(d):
    r=[]
    for b,ds,fs in os.walk(d):
        ds[:]=[x for x in ds if not x.startswith(".") and x!="__pycache__"]
        r+=[os.path.join(b,f) for f in fs if not f.startswith(".")]
    return r
class BuildError(Exception): pass
def build_engine():
    eng=[os.path.join(V,"engine",f) for f in os.listdir(V+"/engine")]
    h=fhash(eng); d=f"{V}/build/engine-{h}"
    if os.path.exists(d+"/ok"): return d,h
    tmp=d+f".tmp{os.getpid()}"; os.makedirs(tmp,exist_ok=True)
    cfg=sh(["llvm-config-18","--cxxflags"]) if shutil.which("llvm-config-18") else sh(["llvm-config","--cxxflags"])
    cmds=[["clang++","-O1","-fPIC","-shared"]+cfg.stdout.split()+[V+"/engine/vxpass.cpp","-o",tmp+"/libvxpass.so"]]
    for f in("vxnorm","vxrt"): cmds.append(["g++","-std=c++17","-O2","-g1","-fPIC","-c",f"{V}/engine/{f}.cpp","-o",f"{tmp}/{f}.o"])
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(sh,cmds):
            if r.returncode: raise BuildError("engine: "+r.stderr[-3000:])
    open(tmp+"/ok","w").write("ok")
    try: os.rename(tmp,d)
    except OSError: shutil.rmtree(tmp,ignore_errors=True)
    return d,h
def config_h(d):
    t=open(SRC+"/config.h.in").read(); cm=open(REPO+"/orocos_kdl/CMakeLists.txt").read()
    m=re.search(r"KDL_VERSION\s+(\d+)\.(\d+)\.(\d+)",cm); v=m.groups() if m else("1","5","2")
    for k,x in(("KDL_VERSION_MAJOR",v[0]),("KDL_VERSION_MINOR",v[1]),("KDL_VERSION_PATCH",v[2]),("KDL_VERSION",".".join(v))): t=t.replace("@"+k+"@",x)
    t=t.replace("#cmakedefine HAVE_STL_CONTAINER_INCOMPLETE_TYPES","#define HAVE_STL_CONTAINER_INCOMPLETE_TYPES"); t=re.sub(r"#cmakedefine (\w+)",r"/* #undef \1 */",t)
    os.makedirs(d,exist_ok=True)
    p=d+"/config.h"
    if not os.path.exists(p): open(p+f".{os.getpid()}","w").write(t); os.rename(p+f".{os.getpid()}",p)
def all_units():
    r=[]
    for b,_,fs in os.walk(SRC):
        for f in fs:
            if f.endswith((".cpp",".cxx")) and not f.startswith("."): r.append(os.path.relpath(os.path.join(b,f),SRC))
    return sorted(r)
def unit_path(u):
    for e in("",".cpp",".cxx"):
        if os.path.isfile(SRC+"/"+u+e): return u+e
    return None
class Build:
    def __init__(s,prop):
        s.prop=prop; s.eng,eh=build_engine()
        files=[f for f in walk(SRC) if f.endswith((".cpp",".cxx",".hpp",".inl",".h",".in"))]+[REPO+"/orocos_kdl/CMakeLists.txt"]
        s.tree=fhash(files); s.dir=f"{V}/build/t-{s.tree}-{eh}"; os.makedirs(s.dir,exist_ok=True); config_h(s.dir+"/inc")
        os.utime(s.dir)
        old=sorted([os.path.join(V,"build",x) for x in os.listdir(V+"/build") if x.startswith("t-")],key=os.path.getmtime)
        for o in old[:-4]:
            if time.time()-os.path.getmtime(o)>3600: shutil.rmtree(o,ignore_errors=True)
        s.hfile=f"{V}/harness/{prop}.cpp"; t=open(s.hfile).read(); m=re.search(r"//\s*SRC:(.*)",t); s.units=m.group(1).split() if m else []
        m=re.search(r"//\s*OPTS:(.*)",t); s.opts=dict(x.split("=") for x in m.group(1).split()) if m else {}
        m=re.search(r"//\s*EXTRA:\s*(\w+)",t); s.extra=m.group(1) if m else ""
        inc=f"-I{s.dir}/inc -I{SRC} -I{SRC}/utilities -I{REPO}/orocos_kdl -I/usr/include/eigen3 -I{V}/engine -I{V}/harness -std=gnu++17 -DNDEBUG -ftrivial-auto-var-init=pattern -fsanitize=address -fno-omit-frame-pointer -w".split()
        m=re.search(r"//\s*PYSRC:(.*)",t); s.py=m.group(1).split() if m else []; s.libs=[]; s.pyinc=[]; s.pyd=REPO+"/python_orocos_kdl/PyKDL"
        if s.py:
            import sysconfig
            k=s.dir+"/inc/py/kdl"; k2=s.dir+"/inc/pycfg/kdl"
            for d,x in((s.dir+"/inc/py","kdl"),): 
                os.makedirs(d,exist_ok=True)
                if not os.path.lexists(d+"/"+x):
                    try: os.symlink(SRC,d+"/"+x)
                    except FileExistsError: pass
            config_h(k2); s.pyinc=[f"-I{s.dir}/inc/pycfg",f"-I{s.dir}/inc/py",f"-I{s.pyd}","-I"+sysconfig.get_paths()["include"]]
            s.libs=[f"-L{sysconfig.get_config_var('LIBDIR')}","-lpython"+sysconfig.get_config_var("LDVERSION")]
            s.tree=fhash(files+[f"{s.pyd}/{f}" for f in os.listdir(s.pyd) if f.endswith((".cpp",".h"))])
        s.sym=["clang++","-O1","-g1","-fno-vectorize","-fno-slp-vectorize","-ffp-contract=off","-DEIGEN_DONT_VECTORIZE",f"-fpass-plugin={s.eng}/libvxpass.so","-DVX_SYMBOLIC"]+inc
        s.nat=["g++","-O2","-g1","-DVX_NATIVE"]+inc
        hh=[f"{V}/harness/{f}" for f in os.listdir(V+"/harness") if f.endswith(".h")]+[s.hfile]
        s.hh=fhash(hh)
    def compile(s,kind,src,out):
        if os.path.exists(out): return
        tmp=out+f".{os.getpid()}"; r=sh((s.sym if kind=="sym" else s.nat)+(s.pyinc+(["-O0"] if kind=="nat" else []) if s.py and src.startswith((s.pyd,s.hfile)) else [])+["-c","-x","c++",src,"-o",tmp])
        if r.returncode: raise BuildError(f"{kind} {src}:\n"+r.stderr[-4000:])
        if "vxpass:" in r.stderr: sys.stderr.write(r.stderr)
        os.rename(tmp,out)
    def link(s,kind,objs,out):
        cc="clang++" if kind=="sym" else "g++"; tmp=out+f".{os.getpid()}"
        r=sh([cc,"-fsanitize=address","-rdynamic"]+objs+[s.eng+"/vxrt.o",s.eng+"/vxnorm.o","-lgmpxx","-lgmp"]+s.libs+["-o",tmp])
        if r.returncode==0: os.rename(tmp,out)
        elif os.environ.get("VX_LINK"): sys.stderr.write(r.stderr)
        return r
    def build(s,kind):
        out=f"{s.dir}/{kind}-{s.prop}-{s.hh}-{s.tree}"
        if os.path.exists(out): return out
        units=[unit_path(u) for u in s.units]; units=[u for u in units if u]
        def objs(us): return [(SRC+"/"+u,f"{s.dir}/{kind}-{u.replace('/','_')}.o") for u in us]
        jobs=[(s.hfile,f"{s.dir}/{kind}-h-{s.prop}-{s.hh}.o")]+objs(units)+[(f"{s.pyd}/{u}.cpp",f"{s.dir}/{kind}-py-{u}-{s.tree}.o") for u in s.py]
        with ThreadPoolExecutor(NJ) as ex: list(ex.map(lambda j:s.compile(kind,*j),jobs))
        r=s.link(kind,[o for _,o in jobs],out)
        if r.returncode:  # a definition lives in another file (moved or newly split): take what is needed from every other unit
            have=set(units); rest=objs([u for u in all_units() if u not in have])
            with ThreadPoolExecutor(NJ) as ex: list(ex.map(lambda j:s.compile(kind,*j),rest))
            ar=f"{out}.{os.getpid()}.a"; sh(["ar","rcs",ar]+[o for _,o in rest])
            r=s.link(kind,[o for _,o in jobs]+[ar],out); os.unlink(ar)
            if r.returncode: raise BuildError("link: "+r.stderr[-4000:])
        return out
def big_stack():
    try: resource.setrlimit(resource.RLIMIT_STACK,(1<<29,resource.RLIM_INFINITY))
    except Exception: pass
def write_inputs(path,rec):
    with open(path,"w") as f:
        for k,v in list(rec.get("inputs",{}).items())+list(rec.get("choices",{}).items()): f.write(f"{k} {v!r}\n" if not isinstance(v,str) else f"{k} {v}\n")
def replay(binary,rec,path,timeout=40):
    write_inputs(path,rec)
    try: r=sh([binary,"run","--case",rec["case"],"--in",path],timeout=timeout,preexec_fn=big_stack)
    except subprocess.TimeoutExpired: return {"status":"timeout","out":""}
    o=r.stdout
    if "ASSUME-FAILED" in o: return {"status":"assume","out":o}
    fails=[l[5:].split(" | ") for l in o.splitlines() if l.startswith("FAIL ")]
    if r.returncode==77 or "AddressSanitizer" in r.stderr: return {"status":"asan","out":o,"err":r.stderr,"fails":fails}
    if r.returncode<0 or (r.returncode!=0 and not fails and "DONE" not in o): return {"status":"crash","out":o,"err":r.stderr+f" rc={r.returncode}","fails":fails}
    return {"status":"fail" if fails else "pass","out":o,"fails":fails}
def jload(line):
    line=re.sub(r':(-?)(nan|inf)\b',lambda m:':"%s%s"'%(m.group(1),m.group(2)),line)
    try: return json.loads(line,strict=False)
    except Exception: return None
def main():
    a=sys.argv[1:]
    if a[0]=="--setup": os.makedirs(V+"/build",exist_ok=True); os.makedirs(V+"/evidence",exist_ok=True); print(build_engine()[0]); return 0
    prop=a[0]; tier=os.environ.get("VERIF_TIER","quick"); only=""; seed=int(os.environ.get("VERIF_SEED","1") or 1); verbose=0
    i=1
    while i<len(a):
        if a[i]=="--tier": tier=a[i+1]; i+=2
        elif a[i]=="--case": only=a[i+1]; i+=2
        elif a[i]=="-v": verbose=1; i+=1
        else: i+=1
    thorough=tier=="thorough"
    os.makedirs(V+"/build",exist_ok=True); os.makedirs(V+"/evidence",exist_ok=True)
    B=Build(prop); symb=B.build("sym"); tb=time.time()-T0
    nat={}
    ex=ThreadPoolExecutor(1); fut=ex.submit(B.build,"nat")
    work=f"{V}/build/run-{prop}-{os.getpid()}"; os.makedirs(work,exist_ok=True); out=work+"/records.jsonl"
    deadline=float(B.opts.get("deadline_thorough",600) if thorough else B.opts.get("deadline",100))
    cmd=[symb,"sym","--out",out,"--jobs",str(NJ),"--seed",str(seed),"--deadline",str(deadline),"--tier","1" if thorough else "0","--qms",str(B.opts.get("qms","10000" if thorough else "3000")),"--cpu",str(B.opts.get("cpu","300" if thorough else "60")),"--polylimit",str(B.opts.get("polylimit",200000))]
    if thorough: cmd+=["--raw","1"]
    if only: cmd+=["--case",only]
    if verbose: cmd+=["-v",str(os.environ.get("VXV","1"))]
    exf=None
    if B.extra=="textcheck" and not only:
        sys.path.insert(0,V+"/text"); import textcheck
        exf=ThreadPoolExecutor(1).submit(textcheck.run,SRC,[x for x in B.nat if x.startswith("-I")],work,thorough,800 if thorough else 200)
    t1=time.time()
    kill_after=deadline*(2 if thorough else 1)+(600 if thorough else 200)
    p=subprocess.Popen(cmd,stdout=subprocess.DEVNULL if not verbose else None,stderr=open(work+"/stderr","w") if not verbose else None,start_new_session=True,preexec_fn=big_stack)
    try: rc=p.wait(timeout=kill_after)
    except subprocess.TimeoutExpired: rc=-99
    try: os.killpg(p.pid,9)
    except ProcessLookupError: pass
    tsym=time.time()-t1
    natb=fut.result()
    recs=[r for r in map(jload,open(out,errors="replace")) if r] if os.path.exists(out) else []
    cases=[r for r in recs if r["t"]=="case"]; cand=[r for r in recs if r["t"]=="cand"]; und=[r for r in recs if r["t"]=="undecided"]; paths=[r for r in recs if r["t"]=="path"]; aborts=[r for r in recs if r["t"] in("abort","died")]; reach=[r for r in recs if r["t"]=="reach"]; notes=sorted({r["s"] for r in recs if r["t"]=="note"})
    allcases=[l for l in sh([symb,"list","--tier","1" if thorough else "0"]).stdout.split() if not only or l==only]
    # ---- replay candidates
    known=[k for k in json.load(open(V+"/known_findings.json"))["findings"] if k["property"]==prop and k.get("status")!="fixed"] if os.path.exists(V+"/known_findings.json") else []
    confirmed={}; unconfirmed={}; khit={}
    tries={}
    rdir=f"{V}/evidence/replay-{prop}"; shutil.rmtree(rdir,ignore_errors=True)
    tcand=time.time()
    def kfind(c,lab=None):
        for k in known:
            if fnmatch.fnmatchcase(c["case"],k.get("case","*")) and fnmatch.fnmatchcase(lab or c["label"],k.get("label","*")) and all(c["choices"].get(a)==b for a,b in k.get("choices",{}).items()): return k
    for c in cand:
        key=(c["case"],c["label"],(kfind(c) or {"id":""})["id"])
        if key in confirmed: continue
        if tries.get(key,0)>=6 or time.time()-tcand>240: continue
        tries[key]=tries.get(key,0)+1
        f=f"{work}/c{len(tries)}-{tries[key]}.txt"; r=replay(natb,c,f)
        lab=c["label"]; hit=False
        if r["status"] in("asan","crash"): hit=True
        elif r["status"]=="timeout": hit=lab=="termination"
        elif r["status"]=="fail":
            hit=any(x[0]==lab for x in r["fails"]) or any(x[0]=="no unexpected exception" for x in r["fails"])
        if hit: confirmed[key]=(c,r,f)
        else: unconfirmed[key]=(c,r)
    for k in list(unconfirmed):
        if k in confirmed: del unconfirmed[k]
    viol=[]
    for key,(c,r,f) in confirmed.items():
        kf=kfind(c)
        if kf: khit.setdefault(kf["id"],kf)
        else: viol.append((key,c,r,f))
    # ---- validate the encoding: replay path witnesses in the plain build
    nval=0; nmis=0; misl=[]; tv=time.time(); lim=150 if thorough else 30; per={}
    vp=[]
    for c in paths:
        if not c["world"]: continue
        per[c["case"]]=per.get(c["case"],0)+1
        if per[c["case"]]<=max(2,lim//max(1,len(allcases))): vp.append(c)
    vp=vp[:lim*2]
    crashv=[]
    if not viol:
        with ThreadPoolExecutor(NJ) as ex2:
            def one(ic):
                if time.time()-tv>(200 if thorough else 25): return None
                return ic[1],replay(natb,ic[1],f"{work}/v{ic[0]}.txt"),f"{work}/v{ic[0]}.txt"
            for z in ex2.map(one,enumerate(vp)):
                if not z: continue
                c,r,f=z
                if r["status"]=="pass": nval+=1
                elif r["status"] in("fail","asan","crash","timeout"):
                    nmis+=1
                    if len(misl)<20: misl.append({"case":c["case"],"status":r["status"],"fails":r.get("fails",[])[:3],"inputs":c["inputs"],"choices":c["choices"]})
                    if r["status"]=="asan": crashv.append((c,r,f))
    for c,r,f in crashv[:3]:
        key=(c["case"],"memory safety (witness replay)")
        kf=kfind(c,key[1])
        if kf: khit.setdefault(kf["id"],kf)
        else: viol.append((key,c,r,f))
    extra=None
    if exf:
        try: extra=exf.result()
        except Exception as e: extra={"queries":[],"violations":[],"notes":["bounded model checker step failed: %r"%e]}
        for i,(lab,inp,err) in enumerate(extra["violations"]):
            f=f"{work}/x{i}.txt"; viol.append((("tokenizer",lab+" on "+inp),{"case":"tokenizer","inputs":{"input":inp},"choices":{},"lhs":"","rhs":""},{"status":"fail","err":err},f))
    tot=lambda k:sum(c.get(k,0) for c in cases)
    fnlist=B.units
    ev={"property":prop,"tier":"thorough" if thorough else "quick","seed":seed,"level":"model_checking","coverage":{
        "states":tot("paths"),"transitions":tot("forks"),"traces_validated_against_impl":nval,
        "samples":[{"case":p_["case"],"choices":p_["choices"],"branch_decisions":p_["trace"],"witness":p_["inputs"]} for p_ in paths[:4]],
        "explanation":"states = completed symbolic paths, transitions = forks at symbolic branches/choices; every assertion on every path is decided by the SMT solver for all input values of that path",
        "units_encoded":fnlist,"harness_cases":allcases,"paths":tot("paths"),"infeasible_paths_pruned":tot("pruned"),"assertions":tot("discharged")+tot("undecided")+tot("cand"),"assertions_discharged":tot("discharged"),"assertions_undecided":tot("undecided"),
        "solver_queries":tot("queries"),"solver_unsat":tot("unsat"),"solver_sat":tot("sat"),"solver_unknown":tot("unknown"),"solver_seconds":round(tot("solver_s"),2),"raw_queries_second_opinion":tot("rawq"),"raw_queries_unsat":tot("rawunsat"),
        "paths_cut_by_budget":tot("truncated"),"paths_aborted":tot("aborted"),"abort_reasons":sorted({r["label"] for r in aborts})[:20],
        "undecided_labels":sorted({r["case"]+": "+r["label"]+" ("+r.get("why","")+")" for r in und})[:40],
        "reachability_witnesses":sorted({r["case"]+": "+r["label"] for r in reach})[:60],"candidates_not_reproduced":[{"case":k[0],"label":k[1],"lhs":c.get("lhs"),"rhs":c.get("rhs"),"inputs":c["inputs"],"choices":c["choices"],"replay":r["status"]} for k,(c,r) in list(unconfirmed.items())[:20]],
        "witness_replays_differing":nmis,"witness_replay_differences":misl,"per_case":[{k:c[k] for k in("case","paths","forks","discharged","undecided","cand","queries","truncated","aborted","pruned","wall")} for c in cases],
        "build_seconds":round(tb,1),"exploration_seconds":round(tsym,1),"tree":B.tree},
      "assumptions":["double arithmetic is interpreted over the reals (rounding, overflow and signed zero are outside the claim); decimal literals and the double values of k*pi/n are read as the exact numbers they denote","inputs, sizes, joint types and call sequences are bounded as stated per harness case"]+notes,
      "wall_s":round(time.time()-T0,2),"violations":len(viol)}
    if extra: ev["coverage"]["bounded_model_checker"]=extra
    json.dump(ev,open(f"{V}/evidence/{prop}.json","w"),indent=1)
    done={c["case"] for c in cases}; miss=[c for c in allcases if c not in done]
    for c in cases: print(f"  {c['case']}: paths={c['paths']} forks={c['forks']} discharged={c['discharged']} undecided={c['undecided']} candidates={c['cand']} queries={c['queries']} truncated={c['truncated']} aborted={c['aborted']} pruned={c['pruned']} wall={c['wall']}")
    for u in ev["coverage"]["undecided_labels"]: print("  undecided:",u)
    for r in ev["coverage"]["abort_reasons"]: print("  aborted:",r)
    for k,(c,r) in unconfirmed.items(): print("  not reproduced:",k,c.get("lhs"),c.get("rhs"),r["status"])
    for m in misl[:8]: print("  witness differs:",m["case"],m["status"],m["fails"],m["choices"])
    print(f"  build {tb:.1f}s explore {tsym:.1f}s solver {tot('solver_s'):.1f}s validated {nval}")
    for k in known: print(f"KNOWN-FINDING: property={prop} {k['what']}"+("" if k["id"] in khit else " (not re-observed in this run)"))
    if extra:
        for x in extra["queries"]: print(f"  model checker: {x['function']} every text of up to {x['bytes']} bytes: {x['answer']} ({x['seconds']} s)")
        for x in extra["notes"]: print("  model checker:",x)
    if miss: print("  cases without a result:",miss)
    novac=[c["case"] for c in cases if c["paths"]==0 and c["cand"]==0]
    if novac: print("  no completed path:",novac)
    if viol:
        os.makedirs(rdir,exist_ok=True)
        for n,(key,c,r,f) in enumerate(viol[:12]):
            rp=f"{rdir}/{n}.txt"; write_inputs(rp,c)
            with open(rp+".info","w") as g: g.write(json.dumps({"case":key[0],"label":key[1],"lhs":c.get("lhs"),"rhs":c.get("rhs"),"replay":r["status"],"fails":r.get("fails",[])[:10],"err":r.get("err","")[:3000],"cmd":f"{natb} run --case {key[0]} --in {rp}"},indent=1))
            print(f"  violated: [{key[0]}] {key[1]}: {c.get('lhs')} vs {c.get('rhs')} ({r['status']}; {[x for x in r.get('fails',[]) if x[0]==key[1]][:1]})")
        print(f"VIOLATION property={prop} replay={rdir}/0.txt")
    shutil.rmtree(work,ignore_errors=True)
    return 1 if viol else 0
if __name__=="__main__":
    try: rc=main()
    except BuildError as e:
        print("BUILD-ERROR",e); rc=2
    sys.stdout.flush(); os._exit(rc)
