// Runtime: boxed doubles, path exploration by fork, SMT back end, harness API, concrete replay mode.
#include "vxcore.h"
#include "vx.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <cstdlib>
#include <cfenv>
#include <fstream>
#include <sstream>
#include <iostream>
#include <random>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
namespace vx {
extern std::map<int,std::string> sinBaseKey; std::map<std::string,Base>& allBases(); Poly substPoly(const Poly&p); std::pair<RF,RF>* angleSC(int a); extern int piAtom;
// ---------------------------------------------------------------- shared counters
struct Pend{ volatile long n; }; static Pend*PEND;
struct Shared{ volatile long paths,forks,oblig,discharged,undecided,viol,queries,qunsat,qsat,qunk,qbatch,truncated,aborted,pruned,reach,rawq,rawunsat; volatile double solver_s; volatile long lock; };
static Shared*SH; 
static void addSolver(double t){ while(__sync_lock_test_and_set(&SH->lock,1)) usleep(50); SH->solver_s=SH->solver_s+t; __sync_lock_release(&SH->lock); }
#define INC(f) __sync_fetch_and_add(&SH->f,1)
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
// ---------------------------------------------------------------- options / state
static bool g_concrete=true; static int g_out=-1; static double g_deadline=1e300,g_hard=1e300; static long g_maxpaths=20000; static int g_tok[2]={-1,-1}; static std::string g_case; static int g_qms=3000; static unsigned g_seed=1; static bool g_exact=true,g_gdiv=false,g_must_term=false; static int g_verbose=0; static bool g_raw=false; static double g_cpu=60;
static std::mt19937 rng(1);
static std::string trace; static std::vector<std::pair<std::string,int>> choices; static std::set<std::string> seenNames;
struct Con{ int node; int nset; Poly p; int set; };  // sign(node) in nset ; p,set: the same as a polynomial of the current epoch
static std::vector<Con> cons; static int consEpoch=0;
static std::map<std::string,int> signMask;
struct Ob{ std::string label; RF l,r; }; static std::vector<std::pair<std::string,std::string>> obBatch; static std::set<int> obAtoms;
static std::vector<std::pair<int,int>> elimSeq; // (atom, node)
static void flushPath(bool normal);
static std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\') r+='\\'; if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
static void emit(const std::string&s){ if(g_out<0) return; std::string t=s+"\n"; ssize_t k=write(g_out,t.data(),t.size()); (void)k; }
static int firstWorld(){ for(int w=0;w<W;w++) if(alive>>w&1) return w; return -1; }
static std::string inputsJson(int w){ std::string s="{"; bool f=true; char b[64]; for(auto&v:vars){ if(v.garbage||w<0) continue; snprintf(b,64,"%.17g",vals[v.node][w]); s+=(f?"\"":",\"")+jesc(v.name)+"\":"+b; f=false; } s+="}"; return s; }
static std::string choicesJson(){ std::string s="{"; bool f=true; for(auto&c:choices){ s+=(f?"\"":",\"")+jesc(c.first)+"\":"+std::to_string(c.second); f=false; } return s+"}"; }
static std::set<std::string> notesEmitted;
static void record(const char*t,const std::string&label,int w,const std::string&extra=""){
  emit(std::string("{\"t\":\"")+t+"\",\"case\":\""+g_case+"\",\"label\":\""+jesc(label)+"\",\"trace\":\""+jesc(trace)+"\",\"choices\":"+choicesJson()+",\"world\":"+(w>=0?"true":"false")+",\"inputs\":"+inputsJson(w)+extra+"}"); }
// ---------------------------------------------------------------- process tree
static std::vector<pid_t> kids; static std::set<pid_t> kidTok; static bool borrowed=false,hasTok=false; static int z3in=-1,z3out=-1; static pid_t z3pid=-1,z3owner=-1;
static bool tokTry(){ if(g_tok[0]<0||(PEND&&PEND->n>0)) return false; pollfd p{g_tok[0],POLLIN,0}; if(poll(&p,1,0)<=0) return false; char c; int fl=fcntl(g_tok[0],F_GETFL); fcntl(g_tok[0],F_SETFL,fl|O_NONBLOCK); ssize_t r=read(g_tok[0],&c,1); return r==1; }
static void tokPut(){ char c='x'; ssize_t k=write(g_tok[1],&c,1); (void)k; }
static void tokGet(){ char c; for(;;){ ssize_t r=read(g_tok[0],&c,1); if(r==1) return; pollfd p{g_tok[0],POLLIN,0}; poll(&p,1,1000); } }
static void z3kill(){ if(z3pid>0&&z3owner==getpid()){ kill(z3pid,SIGKILL); waitpid(z3pid,nullptr,0); close(z3in); close(z3out);} z3pid=-1; }
static void childStatus(pid_t p,int st){ if(WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st)!=0&&WEXITSTATUS(st)!=55)){ /* death without own record */ if(!(WIFEXITED(st)&&(WEXITSTATUS(st)==56||WEXITSTATUS(st)==57))) record("died","process status "+std::to_string(st),firstWorld()); } if(kidTok.count(p)){ kidTok.erase(p); if(WIFSIGNALED(st)) tokPut(); } }
static void reap(bool block){ for(size_t i=0;i<kids.size();){ int st; pid_t r=waitpid(kids[i],&st,block?0:WNOHANG); if(r==kids[i]){ childStatus(r,st); kids.erase(kids.begin()+i);} else i++; } }
[[noreturn]] static void finish(int code){
  z3kill();
  if(!kids.empty()){ tokPut(); reap(true); if(!hasTok) tokGet(); }   // lend the slot while waiting
  else if(hasTok) tokPut();
  _exit(code);
}
static void armCpu(){ itimerval tv{}; tv.it_value.tv_sec=(long)g_cpu; setitimer(ITIMER_PROF,&tv,nullptr); double r=g_hard-now(); if(r<1e6){ if(r<0.05) r=0.05; itimerval t2{}; t2.it_value.tv_sec=(long)r; t2.it_value.tv_usec=(long)((r-(long)r)*1e6); setitimer(ITIMER_REAL,&t2,nullptr); } }
// fork: returns true in the child, false in the parent (which continues after/alongside the child)
static bool forkPath(){
  INC(forks); reap(false);
  bool tok=tokTry(); fflush(stdout);
  pid_t p=fork();
  if(p<0){ if(tok) tokPut(); path_abort("fork failed"); }
  if(p==0){ kids.clear(); kidTok.clear(); hasTok=tok; borrowed=!tok; z3pid=-1; rng.seed(g_seed*7919u+(unsigned)std::hash<std::string>()(trace)); armCpu(); return true; }
  if(tok){ kids.push_back(p); kidTok.insert(p);} else { int st; waitpid(p,&st,0); childStatus(p,st); }
  return false;
}
[[noreturn]] void path_abort(const char*why){ INC(aborted); record("abort",why,firstWorld()); finish(55); }
static bool overBudget(){ return now()>g_deadline||SH->paths>g_maxpaths; }
// ---------------------------------------------------------------- nodes
struct NK{ int op,a,b; bool operator==(const NK&o)const{return op==o.op&&a==o.a&&b==o.b;} }; struct NH{ size_t operator()(const NK&k)const{ return (size_t)k.op*1000003u+(size_t)k.a*92821u+(size_t)k.b*689287499u; } };
static std::unordered_map<NK,int,NH> nodeIdx; static std::unordered_map<std::string,int> constIdx;
static inline double ev(const Node&n,int w){
  auto A=[&]{return vals[n.a][w];}; auto B=[&]{return vals[n.b][w];};
  switch(n.op){ case N_CONST:return consts[n.a].dbl(); case N_PI:return M_PI; case N_VAR:return 0; case N_ADD:return A()+B(); case N_SUB:return A()-B(); case N_MUL:return A()*B(); case N_DIV:return A()/B(); case N_NEG:return -A(); case N_SQRT:{double x=A(); return std::sqrt(x<0&&x>-1e-12?0:x);} case N_SIN:return std::sin(A()); case N_COS:return std::cos(A()); case N_ATAN2:return std::atan2(A(),B()); case N_ABS:return std::fabs(A()); case N_EXP:return std::exp(A()); case N_LOG:return std::log(A()); } return 0; }
int mk(NOp op,int a,int b){
  if((op==N_ADD||op==N_MUL)&&a>b) std::swap(a,b);
  NK k{op,a,b}; auto it=nodeIdx.find(k); if(it!=nodeIdx.end()) return it->second;
  int id=nodes.size(); nodes.push_back({op,a,b}); vals.emplace_back(); nodeIdx[k]=id; for(int w=0;w<W;w++) vals[id][w]=ev(nodes[id],w);
  if(nodes.size()>3000000) path_abort("node limit"); return id;
}
int mkConst(const Q&q){ std::string s=q.str(); auto it=constIdx.find(s); if(it!=constIdx.end()) return it->second; consts.push_back(q); int id=mk(N_CONST,consts.size()-1,0); constIdx[s]=id; return id; }
static double sampleIn(double lo,double hi){ std::uniform_real_distribution<double> d(lo,hi); return d(rng); }
int mkVar(const std::string&name,double lo,double hi,bool hard,bool garbage){ int v=vars.size(); vars.push_back({name,-1,lo,hi,hard,garbage}); int id=mk(N_VAR,v,0); vars[v].node=id; for(int w=0;w<W;w++) vals[id][w]=sampleIn(lo,hi); return id; }
void evalWorld(int w){ for(size_t i=0;i<nodes.size();i++) if(nodes[i].op!=N_VAR) vals[i][w]=ev(nodes[i],w); }
// ---------------------------------------------------------------- boxing
static inline uint64_t bits(double d){ uint64_t u; memcpy(&u,&d,8); return u; }
static inline double mkd(uint64_t u){ double d; memcpy(&d,&u,8); return d; }
static inline bool isbox(double d){ return (bits(d)>>48)==0xFFFC; }
static inline bool isgarb(double d){ return bits(d)==~0ull; }
static inline double box(int node){ return mkd(0xFFFC000000000000ull|(uint32_t)node); }
static int garbCount=0;
static int boxNode(double d){ return (int)(uint32_t)bits(d); }
static bool dyadicSmall(double x){ if(std::fabs(x)>1e9) return x==std::floor(x)&&std::fabs(x)<4e15; double y=x*1048576.0; return y==std::floor(y); }
static Q rationalise(double x){
  if(dyadicSmall(x)){ if(std::fabs(x)>4e9) return Q((int64_t)x); return Q((int64_t)(x*1048576.0),1048576); }
  char b[64]; snprintf(b,64,"%.15g",x); if(strtod(b,nullptr)==x){ // decimal literal
    std::string s=b; int e10=0; size_t e=s.find('e'); if(e!=std::string::npos){ e10=atoi(s.c_str()+e+1); s=s.substr(0,e);} bool neg=s[0]=='-'; if(neg) s=s.substr(1); size_t p=s.find('.'); if(p!=std::string::npos){ e10-=(int)(s.size()-p-1); s.erase(p,1);} 
    size_t nz=s.find_first_not_of('0'); s=nz==std::string::npos?"0":s.substr(nz); mpz_class m(s); mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(),10,std::abs(e10)); mpq_class q=e10>=0?mpq_class(m*t):mpq_class(m,t); q.canonicalize(); if(neg) q=-q; return Q(q); }
  for(long d=3;d<=360;d++){ double n=std::nearbyint(x*d); if(std::fabs(n)<1e6&&n/d==x) return Q((int64_t)n,(int64_t)d); }
  return Q(mpq_class(x));
}
static int piMultiple(double x,Q&q){ // x == double(q*pi)?
  double r=x/M_PI; for(int d:{1,2,3,4,6,180,360,12,5,8}){ double n=std::nearbyint(r*d); if(n!=0&&std::fabs(n)<=720){ double c1=n*M_PI/d,c2=n*(M_PI/d),c3=(n/d)*M_PI; if(x==c1||x==c2||x==c3){ q=Q((int64_t)n,(int64_t)d); return 1; } } }
  if(x==180.0/M_PI||std::fabs(x-57.29577951308232)<1e-13) return 2;
  return 0; }
static int constNode(double x){
  if(x==0) return mkConst(Q(0)); if(!dyadicSmall(x)){ Q q; int k=piMultiple(x,q); if(k==1){ int p=mk(N_PI,0,0); return q.one()?p:mk(N_MUL,mkConst(q),p);} if(k==2) return mk(N_DIV,mkConst(Q(180)),mk(N_PI,0,0)); }
  return mkConst(rationalise(x)); }
static int toNode(double d){ if(isbox(d)) return boxNode(d); if(isgarb(d)){ char b[32]; snprintf(b,32,"uninit#%d",garbCount++); return mkVar(b,-3,3,false,true);} return constNode(d); }
static bool isConstNode(int n,Q&q){ if(nodes[n].op==N_CONST){ q=consts[nodes[n].a]; return true;} return false; }
static double fromNode(int n){ if(nodes[n].op==N_CONST){ const Q&q=consts[nodes[n].a]; if(!q.b&&(q.d&(q.d-1))==0&&q.d<=(1<<20)){ double v=q.dbl(); if(dyadicSmall(v)) return v; } if(q.bits()>700) return q.dbl(); } return box(n); }
// ---------------------------------------------------------------- SMT
static bool smtSpawn(){
  int a[2],b[2]; if(pipe(a)||pipe(b)) return false; fflush(stdout); pid_t p=fork();
  if(p==0){ dup2(a[0],0); dup2(b[1],1); int n=open("/dev/null",O_WRONLY); dup2(n,2); for(int i=3;i<256;i++) close(i); rlimit rl{4000000000ul,4000000000ul}; setrlimit(RLIMIT_AS,&rl); itimerval tv{}; setitimer(ITIMER_PROF,&tv,nullptr); rlimit st{64ul<<20,64ul<<20}; setrlimit(RLIMIT_STACK,&st); unsetenv("ASAN_OPTIONS"); execlp("z3-new","z3-new","-in",(char*)0); execlp("z3","z3","-in",(char*)0); _exit(1); }
  close(a[0]); close(b[1]); z3in=a[1]; z3out=b[0]; z3pid=p; z3owner=getpid(); signal(SIGPIPE,SIG_IGN); return true; }
static bool smtRead(std::string&out,const char*mark,double tmo){
  double end=now()+tmo; out.clear(); char buf[4096]; while(now()<end){ pollfd p{z3out,POLLIN,0}; int r=poll(&p,1,(int)std::max(1.0,(end-now())*1000)); if(r<=0) continue; ssize_t k=read(z3out,buf,4096); if(k<=0) return false; out.append(buf,k); if(out.find(mark)!=std::string::npos) return true; } return false; }
static bool smtSend(const std::string&s){ size_t o=0; while(o<s.size()){ ssize_t k=write(z3in,s.data()+o,s.size()-o); if(k<=0){ if(errno==EINTR) continue; return false;} o+=k; } return true; }
// 0 unsat 1 sat 2 unknown
static int smtCheck(const std::string&body,const std::vector<int>&as,std::map<int,double>*model,int ms){
  INC(queries); double t0=now(); if(t0>g_deadline&&ms>400) ms=400;
  if(z3pid<0||z3owner!=getpid()){ if(!smtSpawn()){ INC(qunk); return 2; } }
  std::string q="(reset)\n(set-option :timeout "+std::to_string(ms)+")\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n"+body+"(check-sat)\n(echo \"@@\")\n";
  std::string out; int res=2; bool ok=smtSend(q)&&smtRead(out,"@@",ms/1000.0+2.0);
  if(!ok){ z3kill(); }
  else if(out.find("(error")!=std::string::npos) res=2;
  else if(out.compare(0,5,"unsat")==0) res=0; else if(out.compare(0,3,"sat")==0) res=1;
  if(res==1&&model){ std::string g="(get-value ("; for(int a:as) g+=" a"+std::to_string(a); g+="))\n(echo \"@@\")\n"; if(!as.empty()&&smtSend(g)&&smtRead(out,"@@",5)){ size_t i=0; while((i=out.find("(a",i))!=std::string::npos){ i+=2; int id=atoi(out.c_str()+i); size_t j=out.find(' ',i); std::string v=out.substr(j+1); bool neg=false; size_t k=0; double num=0; 
          auto skip=[&]{ while(k<v.size()&&(v[k]==' '||v[k]=='(')) k++; }; skip(); if(v[k]=='-'){ neg=true; k++; skip(); } if(v[k]=='/'){ k++; skip(); bool n2=false; if(v[k]=='-'){n2=true;k++;skip();} char*e; double x=strtod(v.c_str()+k,&e); double y=strtod(e[0]==')'?e+1:e,&e); num=x/y; if(n2) num=-num; } else num=strtod(v.c_str()+k,nullptr); (*model)[id]=neg?-num:num; i=j; } } else if(!as.empty()) { z3kill(); } }
  addSolver(now()-t0); if(res==0) INC(qunsat); else if(res==1) INC(qsat); else INC(qunk); return res; }
static std::string smtMono(int m){ std::string s; for(auto&x:monos[m]) for(int i=0;i<x.second;i++) s+=" a"+std::to_string(x.first); return s; }
static std::string smtPoly(const Poly&p){ if(p.empty()) return "0.0"; std::string s; for(auto&t:p){ int deg=0; for(auto&x:monos[t.first]) deg+=x.second; if(deg==0) s+=" "+t.second.smt(); else if(t.second.one()&&deg==1) s+=smtMono(t.first); else s+=" (* "+(t.second.one()?"":t.second.smt())+smtMono(t.first)+")"; } return p.size()==1?s.substr(1):"(+"+s+")"; }
static std::string smtRel(const std::string&e,int set){ switch(set){ case NEG:return "(< "+e+" 0.0)"; case ZERO:return "(= "+e+" 0.0)"; case POS:return "(> "+e+" 0.0)"; case NEG|ZERO:return "(<= "+e+" 0.0)"; case POS|ZERO:return "(>= "+e+" 0.0)"; case NEG|POS:return "(not (= "+e+" 0.0))"; case 0:return "false"; } return "true"; }
static void polyAtoms(const Poly&p,std::set<int>&s){ for(auto&t:p) for(auto&x:monos[t.first]) s.insert(x.first); }
static std::string num(double d){ char b[64]; snprintf(b,64,"%.17g",std::fabs(d)); Q q=rationalise(std::fabs(d)); return d<0?"(- "+q.smt()+")":q.smt(); }
static std::string smtDecls(std::set<int>&as){ // closes `as` under definitions; returns declarations + side facts
  std::string decl,fact; std::vector<int> work(as.begin(),as.end()); std::set<int> done; 
  while(!work.empty()){ int a=work.back(); work.pop_back(); if(!done.insert(a).second) continue; as.insert(a); std::string n="a"+std::to_string(a); decl+="(declare-const "+n+" Real)\n"; Atom&A=atoms[a]; std::set<int> more;
    if(std::isfinite(A.lo)) fact+=std::string("(assert (")+(A.k==A_VAR||A.k==A_PI?"<":"<=")+" "+num(A.lo)+" "+n+"))\n"; if(std::isfinite(A.hi)) fact+=std::string("(assert (")+(A.k==A_VAR||A.k==A_PI?">":">=")+" "+num(A.hi)+" "+n+"))\n";
    if(A.k==A_EXP) fact+="(assert (> "+n+" 0.0))\n";
    if(A.hassq&&A.sq.size()<=60){ polyAtoms(A.sq,more); fact+="(assert (= (* "+n+" "+n+") "+smtPoly(A.sq)+"))\n"; }
    if(A.k==A_COS&&A.pair>=0) more.insert(A.pair);
    if(A.facts&&A.x1.size()+A.x2.size()<=40){ polyAtoms(A.x1,more); polyAtoms(A.x2,more); std::string y=smtPoly(A.x1),x=smtPoly(A.x2); if(piAtom>=0) more.insert(piAtom); std::string hp=piAtom>=0?"(/ a"+std::to_string(piAtom)+" 2.0)":"1.5707963267949"; std::string hpn=piAtom>=0?hp:"1.57079632679489";
      if(piAtom>=0) fact+="(assert (and (<= "+n+" a"+std::to_string(piAtom)+") (< (- a"+std::to_string(piAtom)+") "+n+")))\n";
      fact+="(assert (=> (> "+y+" 0.0) (> "+n+" 0.0)))\n(assert (=> (< "+y+" 0.0) (< "+n+" 0.0)))\n(assert (=> (and (= "+y+" 0.0) (> "+x+" 0.0)) (= "+n+" 0.0)))\n";
      if(piAtom>=0) fact+="(assert (=> (and (= "+y+" 0.0) (< "+x+" 0.0)) (= "+n+" a"+std::to_string(piAtom)+")))\n(assert (=> (= "+x+" 0.0) (or (= "+n+" "+hp+") (= "+n+" (- "+hp+")))))\n";
      fact+="(assert (=> (> "+x+" 0.0) (and (< "+n+" "+hp+") (> "+n+" (- "+hp+")))))\n(assert (=> (< "+x+" 0.0) (or (> "+n+" "+hpn+") (< "+n+" (- "+hpn+")))))\n"; }
    for(int m:more) if(!done.count(m)) work.push_back(m); }
  // sign links between an angle variable and its sine/cosine
  for(auto&kv:allBases()){ Base&b=kv.second; if(b.var<0) continue; int va=b.var<(int)varAtom.size()?varAtom[b.var]:-1; if(va<0||!as.count(va)) continue; auto f=b.sc.find(b.gran); if(f==b.sc.end()) continue; int s=f->second.first,c=f->second.second; if(!as.count(s)&&!as.count(c)) continue; for(int z:{s,c}) if(!as.count(z)){ as.insert(z); decl+="(declare-const a"+std::to_string(z)+" Real)\n"; fact+="(assert (and (<= (- 1.0) a"+std::to_string(z)+") (<= a"+std::to_string(z)+" 1.0)))\n"; }
    std::string u="(/ a"+std::to_string(va)+" "+std::to_string(b.gran)+".0)",S="a"+std::to_string(s),C="a"+std::to_string(c);
    fact+="(assert (=> (and (< 0.0 "+u+") (< "+u+" 3.14159265358979)) (> "+S+" 0.0)))\n(assert (=> (and (> 0.0 "+u+") (> "+u+" (- 3.14159265358979))) (< "+S+" 0.0)))\n(assert (=> (and (< (- 1.5707963267948) "+u+") (< "+u+" 1.5707963267948)) (> "+C+" 0.0)))\n(assert (=> (= "+u+" 0.0) (and (= "+S+" 0.0) (= "+C+" 1.0))))\n(assert (=> (> "+u+" 0.0) (<= "+S+" "+u+")))\n(assert (=> (< "+u+" 0.0) (>= "+S+" "+u+")))\n"; }
  return decl+fact; }
static Poly signPoly(int node,int&flip){ // polynomial with the same sign as node (times flip)
  RF r=norm(node); flip=1; Poly p=r.num; for(auto&x:r.den) if(x.second%2){ int m=7; const Poly&f=factors[x.first]; auto it=signMask.find(pkey(f)); if(it!=signMask.end()) m=it->second; double lo,hi; interval(f,lo,hi); if(lo>0) m=POS; else if(hi<0) m=NEG; m&=~ZERO; if(m==POS) continue; if(m==NEG){ flip=-flip; continue;} p=pmul(p,f); }
  return p; }
static int flipSet(int s){ return (s&ZERO)|((s&NEG)?POS:0)|((s&POS)?NEG:0); }
static void refreshCons(){ if(consEpoch==epoch) return; for(int it=0;it<6&&consEpoch!=epoch;it++){ consEpoch=epoch; for(size_t i=0;i<cons.size();i++){ int f; int n=cons[i].node; Poly p=signPoly(n,f); cons[i].p=p; cons[i].set=f<0?flipSet(cons[i].nset):cons[i].nset; } } }
static std::string consText(std::set<int>&as,const Poly*extra,int set,const Poly*extra2=nullptr,int set2=7){
  refreshCons(); std::string s; std::set<std::string> seen; 
  for(auto&c:cons){ if(c.p.size()>150) continue; if(pIsConst(c.p)) continue; polyAtoms(c.p,as); std::string t=smtRel(smtPoly(c.p),c.set); if(seen.insert(t).second) s+="(assert "+t+")\n"; }
  if(extra){ polyAtoms(*extra,as); s+="(assert "+smtRel(smtPoly(*extra),set)+")\n"; } if(extra2){ polyAtoms(*extra2,as); s+="(assert "+smtRel(smtPoly(*extra2),set2)+")\n"; } return s; }
// ---------------------------------------------------------------- worlds
static bool satVal(double v,int set,double scale){ double tol=1e-9*std::max(scale,1e-5); if(v!=v) return false; if(set==ZERO) return std::fabs(v)<=1e-7*std::max(1.0,scale); if(v>tol) return set&POS; if(v<-tol) return set&NEG; return (set&ZERO)&&std::fabs(v)<1e-13?true:false; }
static double nodeScale(int n,int w){ const Node&N=nodes[n]; if(N.op==N_ADD||N.op==N_SUB) return std::max(std::fabs(vals[N.a][w]),std::fabs(vals[N.b][w])); return 1.0; }
static bool consOK(int w){ for(auto&c:cons) if(!satVal(vals[c.node][w],c.nset,nodeScale(c.node,w))) return false; for(auto&v:vars) if(v.hard&&!(vals[v.node][w]>v.lo&&vals[v.node][w]<v.hi)) return false; return true; }
static void applyElims(int w){ for(auto&e:elimSeq){ evalWorld(w); Atom&A=atoms[e.first]; double t=vals[e.second][w]; if(A.k==A_VAR) vals[A.node][w]=t; else if(A.k==A_COS||A.k==A_SIN){ auto it=sinBaseKey.find(e.first); if(it!=sinBaseKey.end()){ Base&b=allBases()[it->second]; if(b.var>=0&&std::fabs(t)<=1+1e-12){ t=std::max(-1.0,std::min(1.0,t)); double cur=vals[nodes[A.node].a][w]; int g=b.gran; double u; if(A.k==A_COS) u=(std::sin(cur)>=0?1:-1)*std::acos(t); else { u=std::asin(t); if(std::cos(cur)<0) u=M_PI-u; } vals[vars[b.var].node][w]=u*g; } } } } evalWorld(w); }
static bool tryRandomWorld(int w,int tries){
  for(int k=0;k<tries;k++){ int src=-1; if(alive&&k%3==2){ for(int i=0;i<W;i++) if((alive>>i&1)&&i!=w) src=i; }
    for(auto&v:vars){ double x; if(src>=0){ x=vals[v.node][src]; if(rng()%3==0) x+=sampleIn(-0.3,0.3)*(v.hi-v.lo)*0.2; } else { x=sampleIn(v.lo,v.hi); if(!v.hard&&rng()%8==0) x*=3; if(!v.hard&&rng()%8==0) x*=0.01; } vals[v.node][w]=x; }
    if(elimSeq.empty()) evalWorld(w); else applyElims(w); if(consOK(w)) return true; }
  return false; }
static int spareWorld(){ for(int w=W-1;w>=0;w--) if(!(alive>>w&1)) return w; return W-1; }
static bool modelWorld(int w,const std::map<int,double>&m){
  for(int att=0;att<6;att++){
    for(auto&v:vars) vals[v.node][w]=sampleIn(v.lo,v.hi);
    std::set<int> fixed; for(auto&kv:m) if(kv.first<(int)atoms.size()&&atoms[kv.first].k==A_VAR){ vals[atoms[kv.first].node][w]=kv.second; fixed.insert(atoms[kv.first].pair); }
    for(auto&kv:allBases()){ Base&b=kv.second; if(b.var<0) continue; auto f=b.sc.find(b.gran); if(f==b.sc.end()) continue; auto s=m.find(f->second.first),c=m.find(f->second.second); if(s==m.end()||c==m.end()) continue; double u=std::atan2(s->second,c->second); double x=u*b.gran; if(fixed.count(b.var)){ double cur=vals[vars[b.var].node][w]; double k=std::nearbyint((cur-x)/(2*M_PI*b.gran)); double y=x+k*2*M_PI*b.gran; if(std::fabs(y-cur)<1e-6) vals[vars[b.var].node][w]=y; } else vals[vars[b.var].node][w]=x; }
    if(elimSeq.empty()) evalWorld(w); else applyElims(w); if(consOK(w)) return true; }
  return false; }
static void refill(){ if(vars.empty()) return; int n=__builtin_popcount(alive); if(n>=3) return; int tries=nodes.size()>20000?4:nodes.size()>4000?12:40; for(int w=0;w<W&&n<4;w++) if(!(alive>>w&1)){ if(tryRandomWorld(w,tries)){ alive|=1u<<w; n++; } else break; } }
// ---------------------------------------------------------------- path constraints
[[noreturn]] static void infeasible(){ INC(pruned); finish(0); }
static void addEquality(const Poly&p0);
static void eliminate(int a,const Poly&repl){ int nd=polyNode(repl); elim[a]=repl; elimSeq.push_back({a,nd});
  if(g_verbose>1) fprintf(stderr,"[vx] eliminate atom %d (node op %d)\n",a,(int)nodes[atoms[a].node].op);
  if(pIsConst(repl)&&(atoms[a].k==A_SIN||atoms[a].k==A_COS)){ int o=atoms[a].pair; Q k=pConst(repl); Q r=Q(1)-k*k; 
    if(atoms[a].k==A_SIN){ atoms[o].hassq=true; atoms[o].sq=pconst(r); } bumpEpoch(); if(!elim.count(o)){ mpq_class m=r.big(); if(sgn(m)<0) infeasible(); mpz_class n1,d1; mpz_sqrt(n1.get_mpz_t(),m.get_num().get_mpz_t()); mpz_sqrt(d1.get_mpz_t(),m.get_den().get_mpz_t()); if(n1*n1==m.get_num()&&d1*d1==m.get_den()){ Q root(mpq_class(n1,d1)); if(root.zero()) eliminate(o,Poly()); else { Poly d=psub(patom(o),pconst(root)); bool pos=truth(polyNode(d),ZERO); if(!pos&&!elim.count(o)) eliminate(o,pconst(-root)); } } } }
  else bumpEpoch(); }
static bool dependsOn(const Poly&p,int atom){ // conservative: does any atom of p mention atom in its definition?
  std::set<int> as; polyAtoms(p,as); if(as.count(atom)) return true; std::vector<int> st; std::set<int> seen; for(int a:as) if(atoms[a].k!=A_VAR) st.push_back(atoms[a].node); int target=atoms[atom].node; while(!st.empty()){ int n=st.back(); st.pop_back(); if(!seen.insert(n).second) continue; if(n==target) return true; const Node&N=nodes[n]; if(N.op==N_CONST||N.op==N_PI||N.op==N_VAR) continue; st.push_back(N.a); if(N.op<=N_DIV||N.op==N_ATAN2) st.push_back(N.b); } return false; }
static void addEquality(const Poly&p0){
  Poly p=substPoly(p0); if(p.empty()) return; if(pIsConst(p)) infeasible();
  // monomial content
  MonoV g=monos[p[0].first]; for(auto&t:p){ MonoV ng; const MonoV&m=monos[t.first]; size_t i=0; for(auto&x:g){ while(i<m.size()&&m[i].first<x.first) i++; if(i<m.size()&&m[i].first==x.first) ng.push_back({x.first,std::min(x.second,m[i].second)});} g=ng; if(g.empty()) break; }
  if(!g.empty()){
    if(p.size()==1&&g.size()==1){ int a=g[0].first; if(atoms[a].k==A_SQRT){ Poly r=atoms[a].sq; eliminate(a,Poly()); addEquality(r); return; } if(atoms[a].k==A_ANG||atoms[a].k==A_LOG||atoms[a].k==A_PI||atoms[a].k==A_EXP) return; eliminate(a,Poly()); return; }
    for(auto&x:g){ Poly q=patom(x.first); if(truth(polyNode(q),ZERO)) return; }
    int gid=monoIntern(g); Poly q; for(auto&t:p) q.push_back({monoDiv(t.first,gid),t.second}); pcollect(q); addEquality(q); return; }
  // sum of same-sign even terms
  { bool even=true; int sg=0; for(auto&t:p){ for(auto&x:monos[t.first]) if(x.second%2&&!(atoms[x.first].k==A_SQRT)) even=false; int s=t.second.sign(); if(sg==0) sg=s; else if(sg!=s) even=false; } if(even){ bool cst=false; for(auto&t:p) if(monos[t.first].empty()) cst=true; if(cst) infeasible(); for(auto&t:p) addEquality(Poly{t}); return; } }
  // univariate quadratic c^2 = k
  if(p.size()==2){ int i0=monos[p[0].first].empty()?0:monos[p[1].first].empty()?1:-1; if(i0>=0){ const MonoV&m=monos[p[1-i0].first]; if(m.size()==1&&m[0].second==2){ Q k=-p[i0].second/p[1-i0].second; if(k.sign()<0) infeasible(); mpq_class mm=k.big(); mpz_class n1,d1; mpz_sqrt(n1.get_mpz_t(),mm.get_num().get_mpz_t()); mpz_sqrt(d1.get_mpz_t(),mm.get_den().get_mpz_t()); if(n1*n1==mm.get_num()&&d1*d1==mm.get_den()){ Q r(mpq_class(n1,d1)); int a=m[0].first; if(!truth(polyNode(psub(patom(a),pconst(r))),ZERO)) { if(!elim.count(a)) eliminate(a,pconst(-r)); } return; } } } }
  // linear elimination
  int best=-1; Q bc; int bestk=9; for(auto&t:p){ const MonoV&m=monos[t.first]; if(m.size()!=1||m[0].second!=1) continue; int a=m[0].first; int k=atoms[a].k==A_VAR?0:(atoms[a].k==A_COS||atoms[a].k==A_SIN)?1:atoms[a].k==A_SQRT?2:9; if(k==9||k>bestk) continue; if(k==bestk&&best>a) continue; Poly rest; for(auto&u:p) if(u.first!=t.first) rest.push_back(u); if(dependsOn(rest,a)) continue; if(k==1&&!pIsConst(rest)) { std::set<int> as; polyAtoms(rest,as); if(as.count(atoms[a].pair)) continue; }
    best=a; bc=t.second; bestk=k; }
  if(best>=0){ Poly rest; int lm=monoAtom(best); for(auto&u:p) if(u.first!=lm) rest.push_back(u); eliminate(best,pscale(rest,Q(-1)/bc)); if(atoms[best].k==A_SQRT){ Poly r=atoms[best].sq; Poly e=psub(r,pmul(pscale(rest,Q(-1)/bc),pscale(rest,Q(-1)/bc))); addEquality(e);} }
}
static void tighten(const Poly&p,int set){ // atom bounds from linear single-atom facts
  if(p.size()<=2){ int li=-1,ci=-1; for(size_t i=0;i<p.size();i++){ if(monos[p[i].first].empty()) ci=i; else if(monos[p[i].first].size()==1&&monos[p[i].first][0].second==1) li=i; } if(li>=0&&(p.size()==1||ci>=0)){ Atom&A=atoms[monos[p[li].first][0].first]; double k=ci>=0?-(p[ci].second/p[li].second).dbl():0; int s=p[li].second.sign()>0?set:flipSet(set); double e=1e-12*std::fabs(k); if(!(s&POS)) A.hi=std::min(A.hi,k+e); if(!(s&NEG)) A.lo=std::max(A.lo,k-e); } } }
static std::pair<Poly,int> primitive(const Poly&p){ Q c=pContent(p); return {pscale(p,Q(1)/c),c.sign()}; }
static int maskOf(const Poly&prim){ int m=7; auto it=signMask.find(pkey(prim)); if(it!=signMask.end()) m=it->second; double lo,hi; interval(prim,lo,hi); if(lo>0) m&=POS; else if(lo>=0) m&=(ZERO|POS); if(hi<0) m&=NEG; else if(hi<=0) m&=(ZERO|NEG); return m; }
static void filterWorlds(int node,int set){ for(int w=0;w<W;w++) if(alive>>w&1){ if(!satVal(vals[node][w],set,nodeScale(node,w))) alive&=~(1u<<w); } }
// feasibility of constraints + (prim in set): 0 no, 1 yes (model world loaded in *mw if possible), 2 unknown
static int feasible(const Poly&prim,int set,int node,int nset,std::map<int,double>*model){
  if(set==0) return 0; if(prim.size()>120) return 2; std::set<int> as; std::string c=consText(as,&prim,set); std::string d=smtDecls(as); std::vector<int> av(as.begin(),as.end()); (void)node;(void)nset; return smtCheck("(set-logic QF_NRA)\n"+d+c,av,model,g_qms); }
static void commit(int node,int nset,const Poly&prim,int pset,const std::map<int,double>*model){
  std::string k=pkey(prim); int m=maskOf(prim)&pset; signMask[k]=m; refreshCons(); cons.push_back({node,nset,prim,pset}); tighten(prim,pset);
  if(m==ZERO){ addEquality(prim); { // re-derive worlds
      unsigned tryw=alive?alive:(1u<<W)-1; alive=0; for(int w=0;w<W;w++) if(tryw>>w&1){ applyElims(w); if(consOK(w)) alive|=1u<<w; } if(!alive){ for(int w=0;w<W;w++){ applyElims(w); if(consOK(w)) alive|=1u<<w; } } }
  } else filterWorlds(node,nset);
  if(!alive&&model&&!model->empty()){ int w=spareWorld(); if(modelWorld(w,*model)) alive|=1u<<w; }
  refill(); }
static bool truthImpl(int node,int nset){
  int fl; Poly P; for(int t=0;t<8;t++){ int ep=epoch; P=signPoly(node,fl); if(ep==epoch) break; }
  if(P.empty()) return nset&ZERO; if(pIsConst(P)){ int s=pConst(P).sign()*fl; return nset&(s>0?POS:NEG); }
  auto pr=primitive(P); Poly prim=pr.first; int f=fl*pr.second; int T=f<0?flipSet(nset):nset; int m=maskOf(prim);
  if((m&~T)==0) return true; if((m&T)==0) return false;
  bool wt=false,wf=false; for(int w=0;w<W;w++) if(alive>>w&1){ double v=vals[node][w]; double sc=nodeScale(node,w); if(satVal(v,nset&~ZERO,sc)||((nset==ZERO)&&std::fabs(v)<1e-13)) wt=true; else if(satVal(v,7&~nset,sc)) wf=true; }
  std::map<int,double> mt,mf; int ft=wt?1:0,ff=wf?1:0;
  if(!wt) ft=feasible(prim,T&m,node,nset,&mt); if(ft==0){ signMask[pkey(prim)]=m&~T; return false; }
  if(!wf) ff=feasible(prim,m&~T,node,7&~nset,&mf); if(ff==0){ signMask[pkey(prim)]=m&T; return true; }
  if(overBudget()){ INC(truncated); if(SH->truncated<50) record("trunc","budget",firstWorld()); bool side=wt||!wf; trace+=side?'t':'f'; if(side) commit(node,nset,prim,T&m,&mt); else commit(node,7&~nset,prim,m&~T,&mf); return side; }
  // child takes the side with fewer witnesses
  bool childSide=wt&&!wf?false:!wt&&wf?true:false; bool ch=forkPath(); bool side=ch?childSide:!childSide; trace+=side?'1':'0';
  if(g_verbose>1) fprintf(stderr,"[vx] fork node %d set %d side %d: %s\n",node,nset,side,smtPoly(prim).substr(0,200).c_str());
  if(side) commit(node,nset,prim,T&m,&mt); else commit(node,7&~nset,prim,m&~T,&mf);
  return side; }
static std::unordered_map<long,char> truthCache; static int truthDepth=0;
bool truth(int node,int nset){ if(nset==7) return true; if(nset==0) return false; long k=(long)node*8+nset; auto it=truthCache.find(k); if(it!=truthCache.end()) return it->second; if(++truthDepth>2000) path_abort("truth depth"); bool r=truthImpl(node,nset); truthDepth--; truthCache[k]=r; return r; }
int signOfPoly(const Poly&p){ if(p.empty()) return 0; if(pIsConst(p)) return pConst(p).sign(); int m=maskOf(primitive(p).first); int s=primitive(p).second; if(m==POS||m==(POS|ZERO)) return s; if(m==NEG||m==(NEG|ZERO)) return -s; int n=polyNode(p); if(truth(n,NEG)) return -1; return 1; }
void assumeRel(int node,int nset){
  int fl; Poly P; for(int t=0;t<8;t++){ int ep=epoch; P=signPoly(node,fl); if(ep==epoch) break; }
  if(P.empty()){ if(nset&ZERO) return; infeasible(); } if(pIsConst(P)){ int s=pConst(P).sign()*fl; if(nset&(s>0?POS:NEG)) return; infeasible(); }
  auto pr=primitive(P); int f=fl*pr.second; int T=f<0?flipSet(nset):nset; int m=maskOf(pr.first); if((m&~T)==0) return; if((m&T)==0) infeasible();
  unsigned before=alive; filterWorlds(node,nset); unsigned after=alive; std::map<int,double> md; if(!after){ alive=before; int r=feasible(pr.first,T&m,node,nset,&md); if(r==0) infeasible(); }
  commit(node,nset,pr.first,T&m,&md); }
// ---------------------------------------------------------------- concrete mode
static std::map<std::string,double> cin_; static long failCount=0,passCount=0; static std::string perturbVar; static double perturbBy=0; static std::vector<double>*diffRec=nullptr; struct DiffUse{ int var; }; static std::vector<std::string> diffVars; static std::map<std::string,std::map<int,std::vector<double>>> diffTab; static size_t diffIdx=0; static std::map<uint64_t,std::string> varOfVal; static bool diffPass=false; static std::vector<double*> dummy_;
static std::vector<int> diffKinds;
}
using namespace vx;
// ------------------------------------------------------------------ arithmetic entry points
static inline bool plain2(double a,double b){ return (bits(a)>>48)<0xFFFC&&(bits(b)>>48)<0xFFFC; }
static inline bool plain1(double a){ return (bits(a)>>48)<0xFFFC; }
static double cst2(int op,const Q&x,const Q&y){ Q r; switch(op){case 0:r=x+y;break;case 1:r=x-y;break;case 2:r=x*y;break;default:r=x/y;} if(r.bits()>700) return r.dbl(); return fromNode(mkConst(r)); }
static inline double plainOp(int op,double a,double b){ switch(op){case 0:return a+b;case 1:return a-b;case 2:return a*b;default:return a/b;} }
static double binop(int op,double a,double b){
  if(g_concrete) return plainOp(op,a,b);
  if(plain2(a,b)){
    double r=plainOp(op,a,b); if(!std::isfinite(r)||!g_exact) return r;
    if(dyadicSmall(a)&&dyadicSmall(b)){ bool ex; switch(op){case 0:case 1:ex=true;break;case 2:ex=std::fma(a,b,-r)==0&&dyadicSmall(r);break;default:ex=dyadicSmall(r)&&std::fma(r,b,-a)==0;} if(ex) return r; return cst2(op,rationalise(a),rationalise(b)); }
    if(op<=1&&(a==0||b==0)) return r; if(op==2&&(a==0||b==0||a==1||b==1)) return r; if(op==3&&(b==1||a==0)) return r;
    int na=constNode(a),nb=constNode(b); Q x,y; if(isConstNode(na,x)&&isConstNode(nb,y)) return cst2(op,x,y);
    a=box(na); b=box(nb);
  }
  if((!isbox(a)&&!isgarb(a)&&!std::isfinite(a))||(!isbox(b)&&!isgarb(b)&&!std::isfinite(b))){ // inf / nan with a symbolic operand
    bool ap=!isbox(a)&&!isgarb(a),bp=!isbox(b)&&!isgarb(b); if((ap&&std::isnan(a))||(bp&&std::isnan(b))) return NAN;
    if(op==0) return (ap&&!std::isfinite(a))?a:b; if(op==1) return (ap&&!std::isfinite(a))?a:-b;
    if(op==3&&bp&&!std::isfinite(b)) return 0.0; double inf=(ap&&!std::isfinite(a))?a:b; double s=(ap&&!std::isfinite(a))?b:a; int n=toNode(s); if(op==2&&truth(n,ZERO)) return NAN; return truth(n,NEG)?-inf:inf; }
  // cheap identities (real semantics)
  if(!isbox(a)&&!isgarb(a)){ if(a==0){ if(op==0) return b; if(op==2) return 0.0; if(op==3){ int n=toNode(b); if(!g_gdiv&&truth(n,ZERO)) return NAN; return 0.0; } } if(a==1&&op==2) return b; }
  if(!isbox(b)&&!isgarb(b)){ if(b==0){ if(op<=1) return a; if(op==2) return 0.0; if(op==3){ int n=toNode(a); if(truth(n,ZERO)) return NAN; bool neg=truth(n,NEG); return (neg!=std::signbit(b))?-INFINITY:INFINITY; } } if(b==1&&op>=2) return a; }
  int x=toNode(a),y=toNode(b); Q qx,qy; bool cx=isConstNode(x,qx),cy=isConstNode(y,qy);
  if(cx&&cy&&!(op==3&&qy.zero())) return cst2(op,qx,qy);
  if(cx&&qx.zero()){ if(op==0) return fromNode(y); if(op==1) return box(mk(N_NEG,y,0)); if(op==2) return 0.0; }
  if(cy&&qy.zero()){ if(op<=1) return fromNode(x); if(op==2) return 0.0; }
  if(op==1&&x==y) return 0.0;
  if(op==3){
    if(x==y&&g_gdiv) return 1.0;
    if(g_gdiv){ assumeRel(y,NEG|POS); }
    else if(truth(y,ZERO)){ if(truth(x,ZERO)) return NAN; return truth(x,NEG)?-INFINITY:INFINITY; }
    if(x==y) return 1.0; return box(mk(N_DIV,x,y)); }
  return box(mk(op==0?N_ADD:op==1?N_SUB:N_MUL,x,y));
}
extern "C" {
double vx_add(double a,double b){ return binop(0,a,b); } double vx_sub(double a,double b){ return binop(1,a,b); } double vx_mul(double a,double b){ return binop(2,a,b); } double vx_div(double a,double b){ return binop(3,a,b); }
double vx_neg(double a){ if(g_concrete||plain1(a)) return -a; int n=toNode(a); if(nodes[n].op==N_NEG) return fromNode(nodes[n].a); Q q; if(isConstNode(n,q)) return fromNode(mkConst(-q)); return box(mk(N_NEG,n,0)); }
double vx_fabs(double a);
int vx_fcmp(int pred,double a,double b){
  // LLVM predicates: 0 F,1 OEQ,2 OGT,3 OGE,4 OLT,5 OLE,6 ONE,7 ORD,8 UNO,9 UEQ,10 UGT,11 UGE,12 ULT,13 ULE,14 UNE,15 T
  auto plainCmp=[&](double x,double y)->int{ bool u=x!=x||y!=y; switch(pred){case 0:return 0;case 15:return 1;case 7:return !u;case 8:return u;} if(u) return pred>=8; int p=pred&7; switch(p){case 1:return x==y;case 2:return x>y;case 3:return x>=y;case 4:return x<y;case 5:return x<=y;case 6:return x!=y;} return 0; };
  if(g_concrete||plain2(a,b)) return plainCmp(a,b);
  bool ab=isbox(a)||isgarb(a),bb=isbox(b)||isgarb(b);
  if((!ab&&a!=a)||(!bb&&b!=b)) return pred>=8; if(!ab&&!std::isfinite(a)) return plainCmp(a,0); if(!bb&&!std::isfinite(b)) return plainCmp(0,b);
  if(pred==0||pred==8) return 0; if(pred==15||pred==7) return 1;
  int p=pred&7; int set=p==1?ZERO:p==2?POS:p==3?(POS|ZERO):p==4?NEG:p==5?(NEG|ZERO):(NEG|POS);
  int x=toNode(a),y=toNode(b); Q qx,qy; if(isConstNode(x,qx)&&isConstNode(y,qy)){ Q d=qx-qy; int s=d.sign(); return (set&(s>0?POS:s<0?NEG:ZERO))!=0; }
  if(x==y) return (set&ZERO)!=0;
  // |u| against a constant: compare squares instead of splitting on the sign of u
  for(int sw=0;sw<2;sw++){ int u=sw?y:x,k=sw?x:y; Q q; if(nodes[u].op==N_ABS&&isConstNode(k,q)){ int s=sw?flipSet(set):set; /* |u| - q in s */ if(q.sign()<0) return (s&POS)!=0; if(q.zero()){ int u0=nodes[u].a; if(!(s&ZERO)) return (s&POS)?truth(u0,NEG|POS):0; if(s&POS) return 1; return truth(u0,ZERO); } int d=mk(N_SUB,mk(N_MUL,nodes[u].a,nodes[u].a),mkConst(q*q)); return truth(d,s); } }
  // atan2(v,u) (or its magnitude) against a constant angle in (0,pi): a half-plane test on (u,v)
  for(int sw=0;sw<2;sw++){ int u=sw?y:x,k=sw?x:y; Q q; bool ab2=nodes[u].op==N_ABS&&nodes[nodes[u].a].op==N_ATAN2; if((nodes[u].op==N_ATAN2||ab2)&&isConstNode(k,q)){ double c=q.dbl(); bool negc=c<0; if(negc) c=-c; if(c<1e-15||c>3.14159||(ab2&&negc)) break; int s=sw?flipSet(set):set; /* theta - q in s */ int at=ab2?nodes[u].a:u; int v=nodes[at].a,h=nodes[at].b; int yy=ab2?toNode(vx_fabs(fromNode(v))):negc?mk(N_NEG,v,0):v; if(negc) s=flipSet(s); /* with theta'=-theta for negative constants */
    if(!ab2&&truth(yy,NEG)) return (s&NEG)!=0; int e=mk(N_SUB,mk(N_MUL,yy,mkConst(rationalise(std::cos(c)))),mk(N_MUL,h,mkConst(rationalise(std::sin(c))))); return truth(e,s); } }
  Q q; int d; if(isConstNode(y,q)&&q.zero()) d=x; else if(isConstNode(x,q)&&q.zero()){ d=y; set=flipSet(set);} else d=mk(N_SUB,x,y);
  return truth(d,set); }
double vx_fabs(double a){ if(g_concrete||plain1(a)) return std::fabs(a); int n=toNode(a); if(nodes[n].op==N_NEG) n=nodes[n].a; Q q; if(isConstNode(n,q)) return fromNode(mkConst(q.abs())); if(nodes[n].op==N_ABS||nodes[n].op==N_SQRT||nodes[n].op==N_EXP) return box(n); return box(mk(N_ABS,n,0)); }
double vx_sqrt(double a){ if(g_concrete) return std::sqrt(a); if(plain1(a)){ double r=std::sqrt(a); if(!std::isfinite(r)||!g_exact||(dyadicSmall(a)&&dyadicSmall(r)&&std::fma(r,r,-a)==0)) return r; a=box(constNode(a)); }
  int n=toNode(a); Q q; if(isConstNode(n,q)){ if(q.sign()<0) return NAN; mpq_class m=q.big(); mpz_class u,v; mpz_sqrt(u.get_mpz_t(),m.get_num().get_mpz_t()); mpz_sqrt(v.get_mpz_t(),m.get_den().get_mpz_t()); if(u*u==m.get_num()&&v*v==m.get_den()) return fromNode(mkConst(Q(mpq_class(u,v)))); return box(mk(N_SQRT,n,0)); }
  if(truth(n,NEG)) return NAN; return box(mk(N_SQRT,n,0)); }
static double trig1(NOp op,double a,double(*f)(double)){ if(g_concrete) return f(a); if(plain1(a)){ if(a==0||!std::isfinite(a)||!g_exact) return f(a); a=box(constNode(a)); } int n=toNode(a); 
  { double r=f(0); if(nodes[n].op==N_CONST&&consts[nodes[n].a].zero()) return r; } RF x=norm(n); if(x.num.empty()) return f(0); if(x.den.empty()&&x.num.size()==1&&monos[x.num[0].first].size()==1&&monos[x.num[0].first][0].second==1&&atoms[monos[x.num[0].first][0].first].k==A_PI){ int k=mk(op,n,0); RF r=norm(k); if(r.den.empty()&&pIsConst(r.num)) return fromNode(mkConst(pConst(r.num))); return box(k); }
  return box(mk(op,n,0)); }
double vx_sin(double a){ return trig1(N_SIN,a,std::sin); } double vx_cos(double a){ return trig1(N_COS,a,std::cos); }
double vx_tan(double a){ if(g_concrete||(plain1(a)&&(a==0||!g_exact))) return std::tan(a); return vx_div(vx_sin(a),vx_cos(a)); }
double vx_atan2(double y,double x){ if(g_concrete||(plain2(y,x)&&(y==0||!g_exact||!std::isfinite(y)||!std::isfinite(x)))) return std::atan2(y,x);
  bool yp=plain1(y),xp=plain1(x); if((yp&&!std::isfinite(y))||(xp&&!std::isfinite(x))) return NAN; int a=toNode(y),b=toNode(x); if(truth(a,ZERO)){ if(truth(b,NEG)) return box(mk(N_PI,0,0)); return 0.0; } return box(mk(N_ATAN2,a,b)); }
double vx_atan(double a){ if(g_concrete||(plain1(a)&&(a==0||!g_exact||!std::isfinite(a)))) return std::atan(a); return vx_atan2(a,1.0); }
double vx_asin(double a){ if(g_concrete||(plain1(a)&&(a==0||!g_exact||std::fabs(a)>1))) return std::asin(a); if(vx_fcmp(2,vx_mul(a,a),1.0)) return NAN; return vx_atan2(a,vx_sqrt(vx_sub(1.0,vx_mul(a,a)))); }
double vx_acos(double a){ if(g_concrete||(plain1(a)&&(a==1||!g_exact||std::fabs(a)>1))) return std::acos(a); if(vx_fcmp(2,vx_mul(a,a),1.0)) return NAN; return vx_atan2(vx_sqrt(vx_sub(1.0,vx_mul(a,a))),a); }
double vx_exp(double a){ if(g_concrete||(plain1(a)&&(a==0||!g_exact||!std::isfinite(a)))) return std::exp(a); if(plain1(a)) a=box(constNode(a)); return box(mk(N_EXP,toNode(a),0)); }
double vx_log(double a){ if(g_concrete||(plain1(a)&&(a==1||a<=0||!g_exact||!std::isfinite(a)))) return std::log(a); if(plain1(a)) a=box(constNode(a)); int n=toNode(a); if(truth(n,NEG)) return NAN; if(truth(n,ZERO)) return -INFINITY; if(nodes[n].op==N_EXP) return fromNode(nodes[n].a); return box(mk(N_LOG,n,0)); }
double vx_log10(double a){ if(g_concrete||(plain1(a)&&(a==1||a<=0||!g_exact))) return std::log10(a); return vx_div(vx_log(a),vx_log(10.0)); }
double vx_sinh(double a){ if(g_concrete||(plain1(a)&&(a==0||!g_exact))) return std::sinh(a); double e=vx_exp(a); return vx_mul(0.5,vx_sub(e,vx_div(1.0,e))); }
double vx_cosh(double a){ if(g_concrete||(plain1(a)&&(a==0||!g_exact))) return std::cosh(a); double e=vx_exp(a); return vx_mul(0.5,vx_add(e,vx_div(1.0,e))); }
double vx_tanh(double a){ if(g_concrete||(plain1(a)&&(a==0||!g_exact))) return std::tanh(a); return vx_div(vx_sinh(a),vx_cosh(a)); }
double vx_powi(double a,int n){ if(g_concrete) return std::pow(a,n); double r=1; for(int i=0;i<std::abs(n);i++) r=vx_mul(r,a); return n<0?vx_div(1.0,r):r; }
double vx_pow(double a,double b){ if(g_concrete||(plain2(a,b)&&!g_exact)) return std::pow(a,b); if(plain1(b)&&b==std::floor(b)&&std::fabs(b)<=24) return vx_powi(a,(int)b); if(plain1(b)&&b==0.5) return vx_sqrt(a); if(plain2(a,b)) return std::pow(a,b); if(vx_fcmp(5,a,0.0)){ if(vx_fcmp(1,a,0.0)) return vx_fcmp(2,b,0.0)?0.0:(vx_fcmp(1,b,0.0)?1.0:INFINITY); path_abort("pow of a negative base with symbolic exponent"); } return vx_exp(vx_mul(b,vx_log(a))); }
double vx_fmin(double a,double b){ if(g_concrete||plain2(a,b)) return std::fmin(a,b); return vx_fcmp(4,a,b)?a:b; } double vx_fmax(double a,double b){ if(g_concrete||plain2(a,b)) return std::fmax(a,b); return vx_fcmp(2,a,b)?a:b; }
double vx_copysign(double a,double b){ if(g_concrete||plain2(a,b)) return std::copysign(a,b); bool neg=plain1(b)?std::signbit(b):vx_fcmp(4,b,0.0); double m=vx_fabs(a); return neg?vx_neg(m):m; }
double vx_hypot(double a,double b){ if(g_concrete||plain2(a,b)) return std::hypot(a,b); return vx_sqrt(vx_add(vx_mul(a,a),vx_mul(b,b))); }
static double intOf(double a,int mode){ // 0 trunc 1 floor 2 ceil 3 round 4 rint
  int n=toNode(a); RF r=norm(n); if(r.den.empty()&&pIsConst(r.num)){ double v=pConst(r.num).dbl(); return mode==0?std::trunc(v):mode==1?std::floor(v):mode==2?std::ceil(v):mode==3?std::round(v):std::rint(v); }
  for(int it=0;it<8;it++){ int w=firstWorld(); double v=w>=0?vals[n][w]:(it%2?-(it+1)/2:it/2); double k=mode==0?std::trunc(v):mode==1?std::floor(v):mode==2?std::ceil(v):mode==3?std::round(v):std::rint(v);
    bool in; switch(mode){ case 1: in=vx_fcmp(3,a,k)&&vx_fcmp(4,a,k+1); break; case 2: in=vx_fcmp(2,a,k-1)&&vx_fcmp(5,a,k); break; case 0: in=k>0?(vx_fcmp(3,a,k)&&vx_fcmp(4,a,k+1)):k<0?(vx_fcmp(2,a,k-1)&&vx_fcmp(5,a,k)):(vx_fcmp(2,a,-1.0)&&vx_fcmp(4,a,1.0)); break; default: in=vx_fcmp(2,a,k-0.5)&&vx_fcmp(4,a,k+0.5); } if(in) return k; }
  path_abort("integer conversion range"); }
double vx_floor(double a){ if(g_concrete||plain1(a)) return std::floor(a); return intOf(a,1);} double vx_ceil(double a){ if(g_concrete||plain1(a)) return std::ceil(a); return intOf(a,2);} double vx_trunc(double a){ if(g_concrete||plain1(a)) return std::trunc(a); return intOf(a,0);} double vx_round(double a){ if(g_concrete||plain1(a)) return std::round(a); return intOf(a,3);} double vx_rint(double a){ if(g_concrete||plain1(a)) return std::rint(a); return intOf(a,4);}
double vx_fmod(double a,double b){ if(g_concrete||plain2(a,b)) return std::fmod(a,b); return vx_sub(a,vx_mul(b,vx_trunc(vx_div(a,b)))); } double vx_remainder(double a,double b){ if(g_concrete||plain2(a,b)) return std::remainder(a,b); return vx_sub(a,vx_mul(b,vx_rint(vx_div(a,b)))); }
double vx_ldexp(double a,int e){ if(g_concrete||plain1(a)) return std::ldexp(a,e); return vx_mul(a,std::ldexp(1.0,e)); }
int64_t vx_toi64(double a){ if(g_concrete||plain1(a)) return (int64_t)a; return (int64_t)intOf(a,0); }
float vx_tofloat(double a){ if(g_concrete||plain1(a)) return (float)a; path_abort("symbolic double to float"); }
double vx_concrete(double a){ if(g_concrete||plain1(a)) return a; path_abort("symbolic double to extended precision"); }
int vx_fpclass(double a,int mask){ if(g_concrete||plain1(a)){ int c; switch(std::fpclassify(a)){case FP_NAN:c=3;break;case FP_INFINITE:c=std::signbit(a)?4:512;break;case FP_ZERO:c=std::signbit(a)?32:64;break;case FP_SUBNORMAL:c=std::signbit(a)?16:128;break;default:c=std::signbit(a)?8:256;} return (mask&c)!=0; }
  int fin=mask&504; if(fin==504) return 1; if(fin==0) return 0; int set=0; if(fin&8) set|=NEG; if(fin&256) set|=POS; if(fin&(32|64)) set|=ZERO; return truth(toNode(a),set); }
std::ostream& vx_os_insert(std::ostream*os,double v){ if(!isbox(v)||g_concrete) return (*os)<<v; (*os)<<'@'<<boxNode(v)<<'@'; return *os; }
std::istream& vx_is_extract(std::istream*is,double*v){ if(!g_concrete){ std::istream::sentry s(*is); if(s){ int c=is->peek(); bool neg=false; if(c=='@'){ is->get(); long id; (*is)>>id; is->get(); *v=box((int)id); if(neg) *v=vx_neg(*v); return *is; } } else return *is; }
  double t; (*is)>>t; *v=t; return *is; }
std::string* vx_to_string_dummy(){ return nullptr; }
const char* __asan_default_options(){ return "malloc_fill_byte=255:max_malloc_fill_size=1000000000:detect_leaks=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:quarantine_size_mb=4:handle_abort=0:handle_segv=0:handle_sigfpe=0:print_summary=0"; }
void __sanitizer_set_death_callback(void(*)(void)) __attribute__((weak));
}
// ------------------------------------------------------------------ API
namespace vx {
static std::string uniq(const std::string&n){ if(seenNames.insert(n).second) return n; for(int i=2;;i++){ std::string k=n+"~"+std::to_string(i); if(seenNames.insert(k).second) return k; } }
static double concreteInput(const std::string&n,double lo,double hi){ auto it=cin_.find(n); double v; if(it!=cin_.end()) v=it->second; else { unsigned h=(unsigned)std::hash<std::string>()(n); v=lo+(hi-lo)*((h%1000)/1000.0*0.8+0.1); } if(n==perturbVar) v+=perturbBy; varOfVal[bits(v)]=n; return v; }
double real_s(const std::string&n0,double lo,double hi){ std::string n=uniq(n0); if(g_concrete) return concreteInput(n,lo,hi); double b=box(mkVar(n,lo,hi,false,false)); return b; }
double real(const std::string&n){ return real_s(n,-2.5,2.5); } double real(const char*n){ return real_s(n,-2.5,2.5); }
double range(const std::string&n0,double lo,double hi){ std::string n=uniq(n0); if(g_concrete) return concreteInput(n,lo,hi); return box(mkVar(n,lo,hi,true,false)); }
int choose(const std::string&n0,int n){ std::string nm=uniq(n0); if(g_concrete){ auto it=cin_.find(nm); return it==cin_.end()?0:(int)it->second; } int v=n-1; for(int i=0;i<n-1;i++) if(forkPath()){ v=i; break; } trace+="c"+std::to_string(v); choices.push_back({nm,v}); return v; }
bool flip(const std::string&n){ return choose(n,2)==1; }
[[noreturn]] static void assumeFailed(){ if(diffRec||diffPass){ _exit(3);} printf("ASSUME-FAILED\n"); fflush(stdout); _exit(3); }
void assume(bool c){ if(c) return; if(g_concrete) assumeFailed(); infeasible(); }
static void assumeSet(double a,double b,int set){ if(g_concrete||plain2(a,b)){ bool ok=(set==NEG&&a<b)||(set==(NEG|ZERO)&&a<=b*(1+1e-12)+1e-12)||(set==(NEG|POS)&&a!=b)||(set==ZERO&&std::fabs(a-b)<=1e-7*(1+std::fabs(a))); assume(ok); return; } int x=toNode(a),y=toNode(b); Q q; int d=isConstNode(y,q)&&q.zero()?x:mk(N_SUB,x,y); assumeRel(d,set); }
void assume_lt(double a,double b){ assumeSet(a,b,NEG);} void assume_le(double a,double b){ assumeSet(a,b,NEG|ZERO);} void assume_ne(double a,double b){ assumeSet(a,b,NEG|POS);} void assume_eq(double a,double b){ assumeSet(a,b,ZERO);} 
void generic_div(bool on){ g_gdiv=on; }
void note(const std::string&s){ if(g_concrete) return; if(notesEmitted.insert(s).second) emit("{\"t\":\"note\",\"case\":\""+g_case+"\",\"s\":\""+jesc(s)+"\"}"); }
bool concrete(){ return g_concrete; } bool is_sym(double x){ return !g_concrete&&isbox(x); } void must_terminate(bool on){ g_must_term=on; } void exact_consts(bool on){ g_exact=on; }
double value(double x){ if(g_concrete||!isbox(x)) return x; int w=firstWorld(); return w<0?NAN:vals[boxNode(x)][w]; }
void debug(const char*t,double x){ if(g_concrete||!isbox(x)){ fprintf(stderr,"%s = %.17g\n",t,x); return;} RF r=norm(boxNode(x)); std::string s=smtPoly(r.num); fprintf(stderr,"%s = [%zu terms] %s / ",t,r.num.size(),s.substr(0,600).c_str()); for(auto&d:r.den) fprintf(stderr,"(%s)^%d",smtPoly(factors[d.first]).substr(0,200).c_str(),d.second); fprintf(stderr,"  ~ %.6g  alive=%x\n",value(x),alive); }
static std::string num17(double d){ char b[40]; snprintf(b,40,"%.10g",d); return b; }
static void fail(const std::string&label,double a,double b){ failCount++; if(!diffRec&&!diffPass) printf("FAIL %s | %.17g | %.17g\n",label.c_str(),a,b); }
static bool findWorld(){ if(firstWorld()>=0) return true; std::set<int> as; std::string c=consText(as,nullptr,7); std::string d=smtDecls(as); std::vector<int> av(as.begin(),as.end()); std::map<int,double> m; int r=smtCheck("(set-logic QF_NRA)\n"+d+c,av,&m,g_qms*2); if(r==0) infeasible(); if(r==1){ int w=spareWorld(); if(modelWorld(w,m)){ alive|=1u<<w; return true; } } 
  for(int w=0;w<3;w++) if(tryRandomWorld(w,200)){ alive|=1u<<w; return true; } return false; }
static std::set<std::string> violLabels;
static void violation(const std::string&label,int w,double l,double r){ if(!violLabels.insert(label).second) return; INC(viol); record("cand",label,w,",\"lhs\":\""+num17(l)+"\",\"rhs\":\""+num17(r)+"\""); }
static void undecided(const std::string&label,const char*why){ INC(undecided); if(SH->undecided<400) record("undecided",label,firstWorld(),std::string(",\"why\":\"")+why+"\""); }
void check(const std::string&label,bool c){ if(g_concrete){ if(c) passCount++; else fail(label,0,1); return; } INC(oblig); if(c){ INC(discharged); return; } if(findWorld()) violation(label,firstWorld(),0,1); else undecided(label,"false on a path whose feasibility is not established"); }
static std::string smtRFnum(const RF&r,std::set<int>&as){ polyAtoms(r.num,as); std::string s=smtPoly(r.num); for(auto&d:r.den){ polyAtoms(factors[d.first],as); for(int i=0;i<d.second;i++) s="(/ "+s+" "+smtPoly(factors[d.first])+")"; } return s; }
static void batchFlush(){ if(obBatch.empty()) return; std::string body; std::string ds; for(int a:obAtoms) ds+="(declare-const a"+std::to_string(a)+" Real)\n"; body="(set-logic QF_NRA)\n"+ds+"(assert (or"; for(auto&o:obBatch) body+=" "+o.second; body+="))\n"; INC(qbatch); int r=smtCheck(body,{},nullptr,20000); if(r==0){ __sync_fetch_and_add(&SH->discharged,(long)obBatch.size()); } else { for(auto&o:obBatch) undecided(o.first,"solver did not confirm the normalised equality"); } obBatch.clear(); obAtoms.clear(); }
// raw (un-normalised) SMT encoding of a DAG node, used as an independent second opinion in the thorough tier
static bool rawExpr(int n,std::string&defs,std::set<int>&done,int&budget){ std::vector<std::pair<int,int>> st{{n,0}}; while(!st.empty()){ auto&[k,ph]=st.back(); const Node N=nodes[k]; if(done.count(k)){ st.pop_back(); continue;} if(ph==0){ ph=1; if(N.op!=N_CONST&&N.op!=N_PI&&N.op!=N_VAR){ int a=N.a,b=N.b; bool bin=N.op<=N_DIV||N.op==N_ATAN2; if(!done.count(a)) st.push_back({a,0}); if(bin&&!done.count(b)) st.push_back({b,0}); } continue; }
    if(--budget<0) return false; std::string nm="n"+std::to_string(k),A="n"+std::to_string(N.a),B="n"+std::to_string(N.b); defs+="(declare-const "+nm+" Real)\n"; 
    switch(N.op){ case N_CONST: defs+="(assert (= "+nm+" "+consts[N.a].smt()+"))\n"; break; case N_PI: defs+="(assert (< 3.14159265358979 "+nm+" 3.1415926535898))\n"; break; case N_VAR: break; case N_ADD: defs+="(assert (= "+nm+" (+ "+A+" "+B+")))\n"; break; case N_SUB: defs+="(assert (= "+nm+" (- "+A+" "+B+")))\n"; break; case N_MUL: defs+="(assert (= "+nm+" (* "+A+" "+B+")))\n"; break; case N_DIV: defs+="(assert (= "+A+" (* "+nm+" "+B+")))\n(assert (not (= "+B+" 0.0)))\n"; break; case N_NEG: defs+="(assert (= "+nm+" (- "+A+")))\n"; break; case N_SQRT: defs+="(assert (and (>= "+nm+" 0.0) (= "+A+" (* "+nm+" "+nm+"))))\n"; break; case N_ABS: defs+="(assert (= "+nm+" (ite (>= "+A+" 0.0) "+A+" (- "+A+"))))\n"; break;
      case N_SIN: case N_COS: { int o=mk(N.op==N_SIN?N_COS:N_SIN,N.a,0); if(done.count(o)) defs+="(assert (= 1.0 (+ (* "+nm+" "+nm+") (* n"+std::to_string(o)+" n"+std::to_string(o)+"))))\n"; break; } default: return false; }
    done.insert(k); st.pop_back(); } return true; }
static void rawCheck(int a,int b){ std::string defs; std::set<int> done; int budget=250; if(!rawExpr(a,defs,done,budget)||!rawExpr(b,defs,done,budget)) return; INC(rawq); int r=smtCheck("(set-logic QF_NRA)\n"+defs+"(assert (not (= n"+std::to_string(a)+" n"+std::to_string(b)+")))\n",{},nullptr,1500); if(r==0) INC(rawunsat); }
void check_eq(const std::string&label,double a,double b,double tol){
  if(g_concrete){ bool ok=std::fabs(a-b)<=tol*(1+std::fabs(a)+std::fabs(b)); if(ok) passCount++; else fail(label,a,b); return; }
  INC(oblig);
  if(!isbox(a)&&!isbox(b)&&!isgarb(a)&&!isgarb(b)){ if(std::fabs(a-b)<=1e-9*(1+std::fabs(a)+std::fabs(b))||(tol>0.5)){ INC(discharged); return; } if(findWorld()) violation(label,firstWorld(),a,b); else undecided(label,"constant mismatch on a path whose feasibility is not established"); return; }
  if((!isbox(a)&&!isgarb(a)&&!std::isfinite(a))||(!isbox(b)&&!isgarb(b)&&!std::isfinite(b))){ if(findWorld()) violation(label,firstWorld(),a,b); else undecided(label,"non-finite value on a path whose feasibility is not established"); return; }
  int x=toNode(a),y=toNode(b); if(x==y){ INC(discharged); return; }
  int d=mk(N_SUB,x,y); RF L=norm(x),R=norm(y); RF D=rfAdd(L,R,true); if(!D.num.empty()) { D=norm(d); if(!D.num.empty()){ L=norm(x); R=norm(y); D=rfAdd(L,R,true);} }
  if(D.num.empty()){
    // the two normal forms (equal modulo the defining relations of the atoms) go to the solver in one batch per path
    if(L.num.size()+R.num.size()<=3000){ std::string s="(not (= "+smtRFnum(L,obAtoms)+" "+smtRFnum(R,obAtoms)+"))"; if(rfKey(L)!=rfKey(R)){ s="(not (= "+smtRFnum(D,obAtoms)+" 0.0))"; } obBatch.push_back({label,s}); if(obBatch.size()>=200) batchFlush(); }
    else { obBatch.push_back({label,"(not (= 0.0 0.0))"}); }
    if(g_raw) rawCheck(x,y); return; }
  // not identical: look for a witness
  double worst=0; int ww=-1; for(int w=0;w<W;w++) if(alive>>w&1){ double l=vals[x][w],r=vals[y][w]; double e=std::fabs(l-r)/(1+std::fabs(l)+std::fabs(r)); if(e!=e) e=1; if(e>worst){ worst=e; ww=w; } }
  if(ww>=0&&worst>tol*3){ violation(label,ww,vals[x][ww],vals[y][ww]); return; }
  // numerically equal (or no witness): ask the solver
  Poly prim=primitive(D.num).first; if(prim.size()<=400){ std::set<int> as; std::string c=consText(as,&prim,NEG|POS); std::string dd=smtDecls(as); std::vector<int> av(as.begin(),as.end()); std::map<int,double> m; int r=smtCheck("(set-logic QF_NRA)\n"+dd+c,av,&m,g_qms*2); if(r==0){ INC(discharged); return; } if(r==1){ int w=spareWorld(); bool was=alive>>w&1; if(!was&&modelWorld(w,m)){ alive|=1u<<w; double l=vals[x][w],rr=vals[y][w]; if(std::fabs(l-rr)>tol*3*(1+std::fabs(l)+std::fabs(rr))){ violation(label,w,l,rr); return; } } } }
  if(getenv("VX_DBG")){ std::set<int> as; std::string c=consText(as,&prim,7); fprintf(stderr,"DBG %s: D=%.2000s\n   where %.3000s\n %.2000s\n",label.c_str(),smtPoly(prim).c_str(),smtDecls(as).c_str(),c.c_str()); }
  undecided(label,ww>=0||alive?"normal forms differ but agree numerically":"no witness and solver inconclusive"); }
static void checkSet(const std::string&label,double a,double b,int okset,double tol){ // sign(a-b) in okset
  if(g_concrete||(!isbox(a)&&!isbox(b)&&!isgarb(a)&&!isgarb(b))){ bool ok=(okset==NEG)?a<b+1e-9:a<=b+(g_concrete?tol:1e-9)*(1+std::fabs(a)+std::fabs(b)); if(g_concrete){ if(ok) passCount++; else fail(label,a,b); return; } INC(oblig); if(ok){ INC(discharged); return;} if(findWorld()) violation(label,firstWorld(),a,b); else undecided(label,"constant mismatch on a path whose feasibility is not established"); return; }
  INC(oblig); if((!isbox(a)&&!isgarb(a)&&!std::isfinite(a))||(!isbox(b)&&!isgarb(b)&&!std::isfinite(b))){ bool ok=(!isbox(b)&&b==INFINITY)||(!isbox(a)&&a==-INFINITY); if(ok){ INC(discharged); return;} if(findWorld()) violation(label,firstWorld(),a,b); else undecided(label,"non-finite"); return; }
  int x=toNode(a),y=toNode(b); int d=mk(N_SUB,x,y); 
  for(int w=0;w<W;w++) if(alive>>w&1){ double l=vals[x][w],r=vals[y][w]; if(l>r+3*tol*(1+std::fabs(l)+std::fabs(r))||l!=l||r!=r){ violation(label,w,l,r); return; } }
  int fl; Poly P; for(int t=0;t<8;t++){ int ep=epoch; P=signPoly(d,fl); if(ep==epoch) break; }
  if(P.empty()){ if(okset&ZERO) INC(discharged); else if(findWorld()) violation(label,firstWorld(),0,0); else undecided(label,"equal"); return; }
  if(pIsConst(P)){ int s=pConst(P).sign()*fl; if(okset&(s>0?POS:NEG)) INC(discharged); else if(findWorld()) violation(label,firstWorld(),s,0); else undecided(label,"constant"); return; }
  auto pr=primitive(P); int f=fl*pr.second; int ok=f<0?flipSet(okset):okset; int m=maskOf(pr.first); if((m&~ok)==0){ INC(discharged); return; }
  if(pr.first.size()>400){ undecided(label,"inequality too large for the solver"); return; }
  std::set<int> as; std::string c=consText(as,&pr.first,m&~ok); std::string dd=smtDecls(as); std::vector<int> av(as.begin(),as.end()); std::map<int,double> mo; int r=smtCheck("(set-logic QF_NRA)\n"+dd+c,av,&mo,g_qms*4); if(r==0){ INC(discharged); signMask[pkey(pr.first)]=m&ok; return; }
  if(r==1){ int w=spareWorld(); if(!(alive>>w&1)&&modelWorld(w,mo)){ alive|=1u<<w; double l=vals[x][w],rr=vals[y][w]; if(l>rr+3*tol*(1+std::fabs(l)+std::fabs(rr))||(okset==NEG&&l>=rr)){ violation(label,w,l,rr); return; } } }
  // search numerically before giving up
  { int w=spareWorld(); if(!(alive>>w&1)) for(int k=0;k<40;k++) if(tryRandomWorld(w,1)){ double l=vals[x][w],rr=vals[y][w]; if(l>rr+3*tol*(1+std::fabs(l)+std::fabs(rr))){ alive|=1u<<w; violation(label,w,l,rr); return; } } }
  undecided(label,r==1?"solver model could not be turned into an input":"solver inconclusive on the inequality"); }
void check_le(const std::string&label,double a,double b,double tol){ checkSet(label,a,b,NEG|ZERO,tol); } void check_lt(const std::string&label,double a,double b){ checkSet(label,a,b,NEG,1e-9); }
void reach(const std::string&label){ if(g_concrete){ passCount++; return; } if(findWorld()){ INC(reach); emit("{\"t\":\"reach\",\"case\":\""+g_case+"\",\"label\":\""+jesc(label)+"\"}"); } }
// derivative of the DAG
static std::map<std::pair<int,int>,int> dCache;
static int S0(){ return mkConst(Q(0)); } static bool isz(int n){ return nodes[n].op==N_CONST&&consts[nodes[n].a].zero(); } static bool is1(int n){ return nodes[n].op==N_CONST&&consts[nodes[n].a].one(); }
static int nadd(int a,int b){ if(isz(a)) return b; if(isz(b)) return a; return mk(N_ADD,a,b);} static int nsub(int a,int b){ if(isz(b)) return a; if(isz(a)) return mk(N_NEG,b,0); return mk(N_SUB,a,b);} static int nmul(int a,int b){ if(isz(a)||isz(b)) return S0(); if(is1(a)) return b; if(is1(b)) return a; return mk(N_MUL,a,b);} static int ndiv(int a,int b){ if(isz(a)) return a; return mk(N_DIV,a,b);} 
static int dnode(int n,int v){ auto k=std::make_pair(n,v); auto it=dCache.find(k); if(it!=dCache.end()) return it->second; Node N=nodes[n]; int r; 
  switch(N.op){ case N_CONST: case N_PI: r=S0(); break; case N_VAR: r=n==v?mkConst(Q(1)):S0(); break; case N_ADD: r=nadd(dnode(N.a,v),dnode(N.b,v)); break; case N_SUB: r=nsub(dnode(N.a,v),dnode(N.b,v)); break; case N_MUL: r=nadd(nmul(dnode(N.a,v),N.b),nmul(N.a,dnode(N.b,v))); break;
    case N_DIV: { int da=dnode(N.a,v),db=dnode(N.b,v); r=ndiv(nsub(da,nmul(n,db)),N.b); break; } case N_NEG: { int a=dnode(N.a,v); r=isz(a)?a:mk(N_NEG,a,0); break; } case N_SQRT: r=ndiv(dnode(N.a,v),nmul(mkConst(Q(2)),n)); break; case N_SIN: r=nmul(dnode(N.a,v),mk(N_COS,N.a,0)); break; case N_COS: { int a=nmul(dnode(N.a,v),mk(N_SIN,N.a,0)); r=isz(a)?a:mk(N_NEG,a,0); break; }
    case N_ATAN2: { int dy=dnode(N.a,v),dx=dnode(N.b,v); r=ndiv(nsub(nmul(N.b,dy),nmul(N.a,dx)),nadd(nmul(N.a,N.a),nmul(N.b,N.b))); break; } case N_ABS: { int a=dnode(N.a,v); if(isz(a)) r=a; else r=truth(N.a,NEG)?mk(N_NEG,a,0):a; break; } case N_EXP: r=nmul(dnode(N.a,v),n); break; case N_LOG: r=ndiv(dnode(N.a,v),N.a); break; }
  dCache[k]=r; return r; }
static double diffN(double e,double var,int order){
  if(g_concrete){ auto it=varOfVal.find(bits(var)); std::string v=it==varOfVal.end()?"":it->second; size_t k=diffIdx++; if(diffRec){ diffRec->push_back(e); return 0; } if(diffPass){ diffVars.push_back(v); return 0; }
    auto&T=diffTab[v]; auto g=[&](int s)->double{ auto f=T.find(s); if(f==T.end()||f->second.size()<=k) return NAN; return f->second[k]; }; double h=1e-3; if(order==1){ double d1=(g(1)-g(-1))/(2*h),d2=(g(2)-g(-2))/(4*h); return (4*d1-d2)/3; } double s1=(g(1)-2*e+g(-1))/(h*h),s2=(g(2)-2*e+g(-2))/(4*h*h); return (4*s1-s2)/3; }
  if(!isbox(e)) return 0.0; if(!isbox(var)) path_abort("diff by a non-variable"); int n=boxNode(e); for(int i=0;i<order;i++) n=dnode(n,boxNode(var)); return fromNode(n); }
double diff(double e,double v){ return diffN(e,v,1); } double diff2(double e,double v){ return diffN(e,v,2); }
// ------------------------------------------------------------------ driver
struct CaseRec{ const char*name; CaseFn f; int tier; }; static std::vector<CaseRec>&cases(){ static std::vector<CaseRec> c; return c; }
Reg::Reg(const char*n,CaseFn f,int tier){ cases().push_back({n,f,tier}); }
static void pathEnd(const std::string&exc){
  if(!exc.empty()){ if(findWorld()) violation("no unexpected exception",firstWorld(),0,0), record("exc",exc,firstWorld()); else undecided("no unexpected exception","feasibility not established"); }
  batchFlush(); long np=INC(paths); if(np<400){ bool ok=firstWorld()>=0; record("path","",ok?firstWorld():-1); } finish(0); }
static void onDeath(){ static int once=0; if(once++) return; record("cand","memory safety (address sanitizer)",firstWorld(),",\"lhs\":\"asan\",\"rhs\":\"\""); INC(viol); z3kill(); if(!kids.empty()){ reap(true);} if(hasTok) tokPut(); }
static void onSig(int s){ if(s==SIGALRM){ INC(truncated); if(z3pid>0&&z3owner==getpid()) kill(z3pid,SIGKILL); _exit(57); } static int once=0; if(once++) _exit(56); if(s==SIGPROF){ if(g_must_term){ record("cand","termination",firstWorld(),",\"lhs\":\"cpu limit\",\"rhs\":\"\""); INC(viol);} else { INC(aborted); record("abort","cpu limit",firstWorld()); } } else { record("cand","no crash (signal "+std::to_string(s)+")",firstWorld(),",\"lhs\":\"signal\",\"rhs\":\"\""); INC(viol); } z3kill(); if(!kids.empty()) reap(true); if(hasTok) tokPut(); _exit(56); }
static void runCase(CaseRec&c){
  std::string exc; try { c.f(); } catch(std::exception&e){ exc=std::string("std::exception ")+e.what(); } catch(...){ exc="exception"; if(std::type_info*t=abi::__cxa_current_exception_type()) exc=std::string("exception ")+t->name(); }
  if(g_concrete){ if(!exc.empty()) fail("no unexpected exception",0,1); } else pathEnd(exc); }
static std::string getopt_(int argc,char**argv,const char*k,const char*def){ for(int i=1;i+1<argc;i++) if(!strcmp(argv[i],k)) return argv[i+1]; return def; }
}
int main(int argc,char**argv){
  using namespace vx; std::string mode=argc>1?argv[1]:"list"; int tier=atoi(getopt_(argc,argv,"--tier","0").c_str());
  { static char alt[65536]; stack_t ss{}; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr); }
  if(mode=="list"){ for(auto&c:cases()) if(c.tier<=tier) printf("%s\n",c.name); return 0; }
  if(mode=="run"){ // concrete replay: run CASE FILE
    std::string cs=getopt_(argc,argv,"--case",""); std::ifstream f(getopt_(argc,argv,"--in","")); std::string n; double v; std::string line; while(std::getline(f,line)){ size_t p=line.rfind(' '); if(p==std::string::npos) continue; cin_[line.substr(0,p)]=strtod(line.c_str()+p+1,nullptr); }
    CaseRec*C=nullptr; for(auto&c:cases()) if(cs==c.name) C=&c; if(!C){ printf("NOCASE\n"); return 2; } g_concrete=true; g_verbose=atoi(getopt_(argc,argv,"-v","0").c_str());
    signal(SIGPIPE,SIG_IGN);
    // derivative passes in child processes
    size_t SZ=8u<<20; char*sh=(char*)mmap(0,SZ,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); std::vector<std::string> vs;
    auto child=[&](const std::function<void()>&set,const std::function<std::string()>&out)->std::string{ *(uint64_t*)sh=0; fflush(stdout); pid_t p=fork(); if(p==0){ int dn=open("/dev/null",O_WRONLY); dup2(dn,1); set(); runCase(*C); std::string s=out(); if(s.size()+8<SZ){ memcpy(sh+8,s.data(),s.size()); *(uint64_t*)sh=s.size(); } _exit(0);} int st; waitpid(p,&st,0); return std::string(sh+8,*(uint64_t*)sh); };
    std::string l=child([]{diffPass=true;},[]{ std::string s; std::set<std::string> u(diffVars.begin(),diffVars.end()); for(auto&x:u) s+=x+"\n"; return s; });
    std::istringstream is(l); while(std::getline(is,n)) if(!n.empty()) vs.push_back(n);
    for(auto&x:vs) for(int k:{-2,-1,1,2}){ std::string r=child([&]{ static std::vector<double> rec; diffRec=&rec; perturbVar=x; perturbBy=k*1e-3; },[]{ return std::string((char*)diffRec->data(),diffRec->size()*8); }); std::vector<double> d(r.size()/8); memcpy(d.data(),r.data(),d.size()*8); diffTab[x][k]=d; }
    (void)v; runCase(*C); printf("DONE pass=%ld fail=%ld\n",passCount,failCount); fflush(stdout); _exit(failCount?1:0); }
  // symbolic exploration
  std::string out=getopt_(argc,argv,"--out","/dev/stdout"); g_out=open(out.c_str(),O_WRONLY|O_CREAT|O_APPEND,0644); int jobs=atoi(getopt_(argc,argv,"--jobs","8").c_str()); g_seed=atoi(getopt_(argc,argv,"--seed","1").c_str()); double dl=atof(getopt_(argc,argv,"--deadline","120").c_str()); g_qms=atoi(getopt_(argc,argv,"--qms","3000").c_str()); g_maxpaths=atol(getopt_(argc,argv,"--maxpaths","100000").c_str()); g_verbose=atoi(getopt_(argc,argv,"-v","0").c_str()); std::string only=getopt_(argc,argv,"--case",""); g_raw=atoi(getopt_(argc,argv,"--raw","0").c_str()); g_cpu=atof(getopt_(argc,argv,"--cpu","60").c_str()); POLYLIMIT=atol(getopt_(argc,argv,"--polylimit","200000").c_str());
  if(pipe(g_tok)) return 2; for(int i=0;i<jobs;i++) tokPut(); g_concrete=false; double t0=now();
  std::vector<std::pair<pid_t,int>> ps; std::vector<Shared*> shs; int ci=0; double tstart=now(); PEND=(Pend*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); long ncase=0; for(auto&c:cases()) if(!(c.tier>tier||(!only.empty()&&only!=c.name))) ncase++; PEND->n=ncase;
  for(auto&c:cases()){ if(c.tier>tier||(!only.empty()&&only!=c.name)) { continue; } Shared*s=(Shared*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); shs.push_back(s); SH=s; fflush(stdout); bool got=false; while(now()<t0+dl){ pollfd pf{g_tok[0],POLLIN,0}; if(poll(&pf,1,200)>0){ char ch; int fl=fcntl(g_tok[0],F_GETFL); fcntl(g_tok[0],F_SETFL,fl|O_NONBLOCK); if(read(g_tok[0],&ch,1)==1){ got=true; break; } } } if(!got){ s->truncated=1; ps.push_back({-1,ci++}); continue; }
    pid_t p=fork(); if(p==0){ hasTok=true; g_case=c.name; g_deadline=std::min(t0+dl,now()+(ncase>jobs?0.45*dl:dl)); g_hard=t0+dl+20; __sync_fetch_and_sub(&PEND->n,1); rng.seed(g_seed*7919u+17); struct sigaction sa{}; sa.sa_handler=onSig; sa.sa_flags=SA_ONSTACK; for(int g:{SIGSEGV,SIGBUS,SIGFPE,SIGABRT,SIGILL,SIGPROF,SIGALRM}) sigaction(g,&sa,nullptr); if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath); armCpu(); runCase(c); finish(0); }
    ps.push_back({p,ci++}); }
  size_t k=0; for(auto&c:cases()){ if(c.tier>tier||(!only.empty()&&only!=c.name)) continue; int st=0; while(ps[k].first>0&&waitpid(ps[k].first,&st,WNOHANG)==0){ if(now()>t0+dl+26){ kill(ps[k].first,SIGKILL); waitpid(ps[k].first,&st,0); st=0; break; } usleep(20000); } Shared*s=shs[k]; k++; if(WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st)==77)) { SH=s; g_case=c.name; if(WIFSIGNALED(st)) record("died","root status "+std::to_string(st),-1); }
    char b[1024]; snprintf(b,1024,"{\"t\":\"case\",\"case\":\"%s\",\"paths\":%ld,\"forks\":%ld,\"oblig\":%ld,\"discharged\":%ld,\"undecided\":%ld,\"cand\":%ld,\"queries\":%ld,\"unsat\":%ld,\"sat\":%ld,\"unknown\":%ld,\"batch\":%ld,\"truncated\":%ld,\"aborted\":%ld,\"pruned\":%ld,\"reach\":%ld,\"rawq\":%ld,\"rawunsat\":%ld,\"solver_s\":%.3f,\"t\":\"case\",\"wall\":%.2f}",c.name,s->paths,s->forks,s->oblig,s->discharged,s->undecided,s->viol,s->queries,s->qunsat,s->qsat,s->qunk,s->qbatch,s->truncated,s->aborted,s->pruned,s->reach,s->rawq,s->rawunsat,(double)s->solver_s,now()-t0); emit(b); }
  (void)tstart; return 0; }
