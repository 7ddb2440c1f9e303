#include "vxcore.h"
namespace vx {
std::vector<Atom> atoms; std::map<int,Poly> elim; std::vector<MonoV> monos; std::map<MonoV,int> monoIdx; std::unordered_map<uint64_t,int> mulCache;
std::vector<Poly*> redCache; Poly trivialMark; std::vector<Poly> factors; std::unordered_map<std::string,int> factorIdx; size_t POLYLIMIT=300000;
std::vector<Node> nodes; std::vector<WV> vals; std::vector<Q> consts; std::vector<Var> vars; unsigned alive=(1u<<W)-1; int epoch=0;
std::vector<int> varAtom;
static std::vector<RF*> rfCache; static std::unordered_map<std::string,int> atomByKey;
static std::map<std::string,Base> bases; static std::map<int,std::pair<RF,RF>> angSC; int piAtom=-1;
static std::unordered_map<std::string,std::pair<RF,RF>> trigCache;
std::map<int,std::string> sinBaseKey; // atom -> base key (for model construction)
static struct Init{Init(){ monos.push_back(MonoV()); monoIdx[MonoV()]=0; }} init_;
void bumpEpoch(){ epoch++; for(auto&p:rfCache) p=nullptr; redCache.clear(); trigCache.clear();
  // refresh square rules that depend on eliminated atoms
  for(size_t i=0;i<atoms.size();i++) if(atoms[i].k==A_SIN&&atoms[i].hassq){ int c=atoms[i].pair; Poly cp; auto it=elim.find(c); cp=it==elim.end()?patom(c):it->second; Poly sq; if(it==elim.end()) sq=psub(pconst(1),Poly{{monoAtom(c,2),Q(1)}}); else sq=psub(pconst(1),pmul(cp,cp)); atoms[i].sq=sq; redCache.clear(); }
}
static int newAtom(AK k,int node,double lo,double hi){ Atom a; a.k=k;a.node=node;a.pair=-1;a.lo=lo;a.hi=hi;a.hassq=false; atoms.push_back(a); return atoms.size()-1; }
int atomVar(int v){ while((int)varAtom.size()<=v) varAtom.push_back(-1); if(varAtom[v]<0){ varAtom[v]=newAtom(A_VAR,vars[v].node,vars[v].hard?vars[v].lo:-INFINITY,vars[v].hard?vars[v].hi:INFINITY); atoms[varAtom[v]].pair=v; } return varAtom[v]; }
static RF polySubst(const Poly&p){
  bool any=false; for(auto&t:p) for(auto&x:monos[t.first]) if(elim.count(x.first)) any=true;
  if(!any) return rfPoly(p);
  RF r; for(auto&t:p){ RF m=rfPoly(pconst(t.second)); for(auto&x:monos[t.first]){ auto it=elim.find(x.first); RF f=it==elim.end()?rfPoly(patom(x.first)):polySubst(it->second); for(int i=0;i<x.second;i++) m=rfMul(m,f);} r=rfAdd(r,m,false);} return r;
}
static RF atomRF(int a){ auto it=elim.find(a); if(it==elim.end()) return rfPoly(patom(a)); return polySubst(it->second); }
Poly substPoly(const Poly&p){ return polySubst(p).num; }
int polyNode(const Poly&p){ // DAG node computing p
  if(p.empty()) return mkConst(Q(0)); int acc=-1;
  for(auto&t:p){ int m=-1; const MonoV mv=monos[t.first]; for(auto&x:mv) for(int i=0;i<x.second;i++) m=m<0?atoms[x.first].node:mk(N_MUL,m,atoms[x.first].node);
    int term; if(m<0) term=mkConst(t.second); else if(t.second.one()) term=m; else term=mk(N_MUL,mkConst(t.second),m);
    acc=acc<0?term:mk(N_ADD,acc,term); } return acc;
}
void interval(const Poly&p,double&lo,double&hi){
  lo=hi=0; for(auto&t:p){ double l=1,h=1; for(auto&x:monos[t.first]){ double al=atoms[x.first].lo,ah=atoms[x.first].hi; for(int e=0;e<x.second;){ double bl=al,bh=ah; int st=1; if(x.second-e>=2){ st=2; double m=std::max(std::fabs(al),std::fabs(ah)); bh=m*m; bl=(al<=0&&ah>=0)?0:std::min(al*al,ah*ah);} e+=st;
        auto mm=[](double a,double b){ return (a==0||b==0)?0.0:a*b; };
        double c[4]={mm(l,bl),mm(l,bh),mm(h,bl),mm(h,bh)}; l=*std::min_element(c,c+4); h=*std::max_element(c,c+4);} }
    double q=t.second.dbl(); auto mm=[](double a,double b){ return (a==0||b==0)?0.0:a*b; }; double a=mm(l,q),b=mm(h,q); if(a>b)std::swap(a,b); lo+=a; hi+=b; }
  double pad=1e-12*(std::fabs(lo)+std::fabs(hi)); if(std::isfinite(pad)&&p.size()>1){ lo-=pad; hi+=pad; } if(lo!=lo) lo=-INFINITY; if(hi!=hi) hi=INFINITY;
}
static bool intSqrtFree(const mpz_class&n,mpz_class&sq,mpz_class&rest){ // n = sq^2*rest
  sq=1; rest=n; mpz_class r; mpz_sqrt(r.get_mpz_t(),n.get_mpz_t()); if(r*r==n){ sq=r; rest=1; return true; }
  for(unsigned long p=2;p<2000;p++){ mpz_class pp=(long)(p*p); while(rest%pp==0){ rest/=pp; sq*=(long)p; } if(pp>rest) break; }
  mpz_sqrt(r.get_mpz_t(),rest.get_mpz_t()); if(r*r==rest){ sq*=r; rest=1; } return true;
}
static Poly pmulPlain(const Poly&a,const Poly&b){ Poly v; for(auto&x:a) for(auto&y:b) v.push_back({monoMul(x.first,y.first),x.second*y.second}); pcollect(v); return v; }
static bool qSqrt(const Q&q,Q&r){ mpq_class m=q.big(); if(sgn(m)<0) return false; mpz_class a,b; mpz_sqrt(a.get_mpz_t(),m.get_num().get_mpz_t()); mpz_sqrt(b.get_mpz_t(),m.get_den().get_mpz_t()); if(a*a!=m.get_num()||b*b!=m.get_den()) return false; r=Q(mpq_class(a,b)); return true; }
static bool psqrt(const Poly&p,Poly&out){
  if(p.size()>400||p.empty()) return false; int l=pLead(p); MonoV h=monos[p[l].first]; for(auto&x:h){ if(x.second%2) return false; x.second/=2; } Q c; if(!qSqrt(p[l].second,c)) return false;
  Poly q{{monoIntern(h),c}}; Poly lt=q; Poly r=p; { Poly s=pmulPlain(q,q); r=psub(r,s); }
  int steps=0; int lastm=lt[0].first; while(!r.empty()){ if(++steps>60) return false; int k=pLead(r); int m=monoDiv(r[k].first,lt[0].first); if(m<0) return false; if(monoCmp(m,lastm)>=0) return false; lastm=m; Poly t{{m,r[k].second/(lt[0].second*Q(2))}}; Poly s=pmulPlain(q,t); r=psub(r,pscale(s,Q(2))); r=psub(r,pmulPlain(t,t)); q=padd(q,t); }
  out=q; return true;
}
static int sqrtAtom(const Poly&p){
  std::string key="R"+pkey(p); auto it=atomByKey.find(key); if(it!=atomByKey.end()) return it->second;
  int nd=mk(N_SQRT,polyNode(p),0); double lo,hi; interval(p,lo,hi); int a=newAtom(A_SQRT,nd,lo>0?std::sqrt(lo)*(1-1e-12):0,std::isfinite(hi)&&hi>=0?std::sqrt(hi)*(1+1e-12):INFINITY); atoms[a].hassq=true; atoms[a].sq=p; atomByKey[key]=a; return a;
}
static RF sqrtRF(const RF&R){
  if(R.num.empty()) return RF();
  Poly P=R.num; RF out=rfPoly(pconst(1)); 
  for(auto&x:R.den){ int k=x.second/2; if(x.second%2){ P=pmul(P,factors[x.first]); k=(x.second+1)/2; } int sg=1; if(k%2) sg=signOfPoly(factors[x.first]); RF f=rfPoly(pconst(1)); for(int i=0;i<k;i++) rfDivBy(f,factors[x.first]); if(sg<0) f.num=pneg(f.num); out=rfMul(out,f); }
  // content
  mpz_class L=1,G=0; for(auto&t:P){ mpq_class b=t.second.big(); L=lcm(L,b.get_den()); } for(auto&t:P){ mpq_class b=t.second.big(); mpz_class v=b.get_num()*(L/b.get_den()); G=gcd(G,v); }
  mpq_class cont(G,L); cont.canonicalize(); if(sgn(cont)==0) cont=1; if(cont<0) cont=-cont;
  P=pscale(P,Q(mpq_class(1/cont)));
  mpz_class uv=cont.get_num()*cont.get_den(),sq,rest; intSqrtFree(uv,sq,rest); { mpq_class m(sq,cont.get_den()); m.canonicalize(); out.num=pscale(out.num,Q(m)); }
  // monomial squares
  auto pull=[&](const Poly&f){ int s=signOfPoly(f); out=rfMul(out,rfPoly(s<0?pneg(f):f)); };
  if(!pIsConst(P)){
    MonoV g=monos[P[0].first]; for(auto&t:P){ MonoV ng; const MonoV&m=monos[t.first]; size_t i=0; for(auto&x:g){ while(i<m.size()&&m[i].first<x.first) i++; if(i<m.size()&&m[i].first==x.first) ng.push_back({x.first,std::min(x.second,m[i].second)});} g=ng; if(g.empty()) break; }
    for(auto&x:g){ int k=x.second/2; if(!k) continue; int md=monoAtom(x.first,2*k); Poly q; for(auto&t:P) q.push_back({monoDiv(t.first,md),t.second}); pcollect(q); P=q; if(k%2) pull(patom(x.first)); for(int i=0;i<k/2;i++) out=rfMul(out,rfPoly(Poly{{monoAtom(x.first,2),Q(1)}})); }
    std::set<int> as; for(auto&t:P) for(auto&x:monos[t.first]) as.insert(x.first);
    for(int c:as) if(atoms[c].k==A_COS&&atoms[c].pair>=0&&atoms[atoms[c].pair].hassq&&!elim.count(c)&&!elim.count(atoms[c].pair)){ Poly d=psub(pconst(1),Poly{{monoAtom(c,2),Q(1)}}); Poly q; while(!P.empty()&&!pIsConst(P)&&pdivExact(P,d,q)){ P=q; pull(patom(atoms[c].pair)); } }
    Poly q; if(!pIsConst(P)&&psqrt(P,q)){ pull(q); P=pconst(1); }
  }
  if(pIsConst(P)&&!P.empty()){ // fold into content
    Q c=pConst(P); if(c.sign()>0){ mpq_class m=c.big()*mpq_class(rest); mpz_class u=m.get_num()*m.get_den(),s2,r2; intSqrtFree(u,s2,r2); mpq_class f(s2,m.get_den()); f.canonicalize(); out.num=pscale(out.num,Q(f)); if(r2!=1) out=rfMul(out,rfPoly(patom(sqrtAtom(pconst(Q(mpq_class(r2))))))); return out; } }
  P=pscale(P,Q(mpq_class(rest)));
  { Poly q; if(rest!=1&&psqrt(P,q)){ int s=signOfPoly(q); return rfMul(out,rfPoly(s<0?pneg(q):q)); } }
  return rfMul(out,rfPoly(patom(sqrtAtom(P))));
}
static std::pair<RF,RF> scPow(const std::pair<RF,RF>&b,int p){ // sin,cos of p*angle
  std::pair<RF,RF> r(RF(),rfPoly(pconst(1))); int n=std::abs(p); for(int i=0;i<n;i++){ RF s=rfAdd(rfMul(r.first,b.second),rfMul(r.second,b.first),false); RF c=rfAdd(rfMul(r.second,b.second),rfMul(r.first,b.first),true); r.first=s; r.second=c; } if(p<0) r.first.num=pneg(r.first.num); return r;
}
static int termNode(int mono,const std::vector<std::pair<int,int>>&den){ int n=polyNode(Poly{{mono,Q(1)}}); for(auto&x:den){ int f=polyNode(factors[x.first]); for(int i=0;i<x.second;i++) n=mk(N_DIV,n,f);} return n; }
std::map<std::string,Base>& allBases(){ return bases; }
static std::pair<RF,RF> baseSC(const std::string&key,const std::function<int()>&mkTerm,const Q&q,int var){
  Base&b=bases[key]; if(b.termNode<0){ b.termNode=mkTerm(); b.var=var; }
  mpq_class m=q.big(); if(!m.get_den().fits_sint_p()||!m.get_num().fits_sint_p()) path_abort("angle coefficient");
  int d=m.get_den().get_si();
  if(b.gran%d){ int g=b.gran/std::__gcd(b.gran,d)*d; if(g>16) path_abort("angle granularity"); b.gran=g; bumpEpoch(); }
  int g=b.gran; long p=m.get_num().get_si()*(g/d); if(std::labs(p)>24) path_abort("angle multiple");
  auto it=b.sc.find(g); if(it==b.sc.end()){ int un=g==1?b.termNode:mk(N_MUL,mkConst(Q(1,g)),b.termNode); int sn=mk(N_SIN,un,0),cn=mk(N_COS,un,0); int s=newAtom(A_SIN,sn,-1,1),c=newAtom(A_COS,cn,-1,1); atoms[s].pair=c; atoms[c].pair=s; atoms[s].hassq=true; atoms[s].sq=psub(pconst(1),Poly{{monoAtom(c,2),Q(1)}}); redCache.clear(); sinBaseKey[s]=key; sinBaseKey[c]=key; b.sc[g]={s,c}; it=b.sc.find(g); }
  return scPow({atomRF(it->second.first),atomRF(it->second.second)},p);
}
static std::pair<RF,RF> trig(const RF&A){
  std::string k=rfKey(A); auto it=trigCache.find(k); if(it!=trigCache.end()) return it->second;
  int ep=epoch; std::pair<RF,RF> r(RF(),rfPoly(pconst(1)));
  for(auto&t:A.num){ std::pair<RF,RF> u; const MonoV mv=monos[t.first]; Q q=t.second; bool done=false;
    if(A.den.empty()&&mv.size()==1&&mv[0].second==1&&mv[0].first==piAtom){ // q*pi
      Q q12=q*Q(12); if(q12.isint()&&!q12.b){ long z=((q12.n%24)+24)%24; // multiples of 15deg; support multiples of 30 and 45
        auto sq=[&](long n){return sqrtRF(rfPoly(pconst(Q(n))));}; auto val=[&](long zz,RF&o)->bool{ zz=((zz%24)+24)%24; bool neg=false; if(zz>=12){neg=true;zz-=12;} if(zz>6) zz=12-zz; switch(zz){case 0:o=RF();break;case 2:o=rfPoly(pconst(Q(1,2)));break;case 3:o=rfScale(sq(2),Q(1,2));break;case 4:o=rfScale(sq(3),Q(1,2));break;case 6:o=rfPoly(pconst(1));break;default:return false;} if(neg)o.num=pneg(o.num); return true; };
        RF s,c; if(val(z,s)&&val(z+6,c)){ u={s,c}; done=true; } } }
    if(!done&&A.den.empty()&&mv.size()==1&&mv[0].second==1&&atoms[mv[0].first].k==A_ANG&&q.isint()&&!q.b&&std::llabs(q.n)<=12){ u=scPow(angSC[mv[0].first],q.n); done=true; }
    if(!done&&A.den.empty()&&mv.empty()){ // rational constant
      mpq_class m=q.big(); bool small=m.get_den().fits_sint_p()&&m.get_den()<=4&&abs(m.get_num())<=6; std::string key=small?"C1":"C"+q.abs().str(); Q cc=small?q:(q.sign()<0?Q(-1):Q(1)); int cn=small?mkConst(Q(1)):mkConst(q.abs()); u=baseSC(key,[&]{return cn;},cc,-1); done=true; }
    if(!done){ std::string key="M"+std::to_string(t.first)+"/"; for(auto&x:A.den) key+=std::to_string(x.first)+"^"+std::to_string(x.second)+","; int var=-1; if(A.den.empty()&&mv.size()==1&&mv[0].second==1&&atoms[mv[0].first].k==A_VAR) var=atoms[mv[0].first].pair; auto den=A.den; int mono=t.first; 
      mpq_class m=q.big(); if(!m.get_den().fits_sint_p()||m.get_den()>8||abs(m.get_num())>12){ key+="q"+q.abs().str(); Q qa=q.abs(); int sgq=q.sign(); u=baseSC(key,[&]{return mk(N_MUL,mkConst(qa),termNode(mono,den));},Q(sgq),-1); }
      else u=baseSC(key,[&]{return termNode(mono,den);},q,var); }
    RF s=rfAdd(rfMul(r.first,u.second),rfMul(r.second,u.first),false); RF c=rfAdd(rfMul(r.second,u.second),rfMul(r.first,u.first),true); r.first=s; r.second=c;
  }
  if(epoch==ep) trigCache[k]=r; return r;
}
static RF angRF(const RF&Y,const RF&X,int node){
  if(Y.num.empty()){ // sign of X
    if(X.num.empty()) return RF();
    bool neg=truth(nodes[node].b,NEG); if(!neg) return RF(); if(piAtom<0){ piAtom=newAtom(A_PI,mk(N_PI,0,0),3.14159265358979,3.1415926535898); } return rfPoly(patom(piAtom)); }
  RF rho2=rfAdd(rfMul(Y,Y),rfMul(X,X),false); RF rho=sqrtRF(rho2); RF s=rfDiv(Y,rho),c=rfDiv(X,rho);
  if(pIsConst(s.num)&&s.den.empty()&&pIsConst(c.num)&&c.den.empty()){ Q qs=pConst(s.num),qc=pConst(c.num); if(piAtom<0) piAtom=newAtom(A_PI,mk(N_PI,0,0),3.14159265358979,3.1415926535898); if(qc.zero()) return rfScale(rfPoly(patom(piAtom)),qs.sign()>0?Q(1,2):Q(-1,2)); }
  // same angle already named by a variable known to lie in (-pi,pi]
  for(auto&kv:bases){ Base&b=kv.second; if(b.var<0) continue; Var&v=vars[b.var]; if(!v.hard||v.lo<-3.1415926535897936||v.hi>3.1415926535897936) continue; auto f=b.sc.find(b.gran); if(f==b.sc.end()) continue; auto sc=scPow({atomRF(f->second.first),atomRF(f->second.second)},b.gran); if(rfKey(sc.first)==rfKey(s)&&rfKey(sc.second)==rfKey(c)) return atomRF(atomVar(b.var)); }
  std::string key="A"+rfKey(s)+"#"+rfKey(c); auto it=atomByKey.find(key); if(it!=atomByKey.end()) return atomRF(it->second);
  // odd symmetry: atan2(-y,x) = -atan2(y,x)
  RF sn=s; sn.num=pneg(sn.num); std::string key2="A"+rfKey(sn)+"#"+rfKey(c); it=atomByKey.find(key2); if(it!=atomByKey.end()){ RF r=atomRF(it->second); r.num=pneg(r.num); return r; }
  int a=newAtom(A_ANG,node,-3.1415926535898,3.1415926535898); atoms[a].x1=s.den.empty()?s.num:Poly(); atoms[a].x2=c.den.empty()?c.num:Poly(); 
  { // sign-carrying numerators for facts (denominators that are known positive only)
    Poly y=Y.num,x=X.num; for(auto&d:Y.den) if(d.second%2) y=pmul(y,factors[d.first]); for(auto&d:X.den) if(d.second%2) x=pmul(x,factors[d.first]); atoms[a].x1=y; atoms[a].x2=x; atoms[a].facts=true; }
  atomByKey[key]=a; angSC[a]={s,c}; return rfPoly(patom(a));
}
std::pair<RF,RF>* angleSC(int a){ auto it=angSC.find(a); return it==angSC.end()?nullptr:&it->second; }
static RF expRF(const RF&A){
  RF r=rfPoly(pconst(1)); for(auto&t:A.num){ // E = exp(term/gran)
    std::string key="E"+std::to_string(t.first)+"/"; for(auto&x:A.den) key+=std::to_string(x.first)+"^"+std::to_string(x.second)+",";
    const MonoV mv=monos[t.first]; if(A.den.empty()&&mv.size()==1&&mv[0].second==1&&atoms[mv[0].first].k==A_LOG&&t.second.isint()&&!t.second.b&&std::llabs(t.second.n)<10){ /* exp(n log x) = x^n */ const RF x=norm(nodes[atoms[mv[0].first].node].a); for(int i=0;i<std::llabs(t.second.n);i++) r=t.second.n>0?rfMul(r,x):rfDiv(r,x); continue; }
    Base&b=bases[key]; if(b.termNode<0) b.termNode=termNode(t.first,A.den); mpq_class m=t.second.big(); if(!m.get_den().fits_sint_p()||!m.get_num().fits_sint_p()) path_abort("exp coefficient"); int d=m.get_den().get_si(); if(b.gran%d){ int g=b.gran/std::__gcd(b.gran,d)*d; if(g>64) path_abort("exp granularity"); b.gran=g; bumpEpoch(); }
    int g=b.gran; long p=m.get_num().get_si()*(g/d); if(std::labs(p)>64) path_abort("exp multiple"); auto it=b.sc.find(g); if(it==b.sc.end()){ int un=g==1?b.termNode:mk(N_MUL,mkConst(Q(1,g)),b.termNode); int e=newAtom(A_EXP,mk(N_EXP,un,0),0,INFINITY); b.sc[g]={e,e}; it=b.sc.find(g); }
    RF e=atomRF(it->second.first); for(int i=0;i<std::labs(p);i++) r=p>0?rfMul(r,e):rfDiv(r,e);
  } return r;
}
static RF logRF(const RF&A,int node){ std::string key="L"+rfKey(A); auto it=atomByKey.find(key); if(it!=atomByKey.end()) return atomRF(it->second); if(pIsConst(A.num)&&A.den.empty()&&pConst(A.num).one()) return RF(); int a=newAtom(A_LOG,node,-INFINITY,INFINITY); atomByKey[key]=a; return rfPoly(patom(a)); }
static RF normNew(int n){
  Node N=nodes[n];
  switch(N.op){
    case N_CONST: return rfPoly(pconst(consts[N.a]));
    case N_PI: if(piAtom<0) piAtom=newAtom(A_PI,n,3.14159265358979,3.1415926535898); return rfPoly(patom(piAtom));
    case N_VAR: return atomRF(atomVar(N.a));
    case N_ADD: { RF a=norm(N.a); return rfAdd(a,norm(N.b),false);} case N_SUB: { RF a=norm(N.a); return rfAdd(a,norm(N.b),true);}
    case N_MUL: { RF a=norm(N.a); if(a.num.empty()) return a; return rfMul(a,norm(N.b));}
    case N_DIV: { RF a=norm(N.a); if(a.num.empty()) return a; RF b=norm(N.b); if(b.num.empty()) path_abort("division by normalised zero"); return rfDiv(a,b);}
    case N_NEG: { RF a=norm(N.a); a.num=pneg(a.num); return a;}
    case N_SQRT: return sqrtRF(RF(norm(N.a)));
    case N_SIN: return trig(RF(norm(N.a))).first; case N_COS: return trig(RF(norm(N.a))).second;
    case N_ATAN2: { RF y=norm(N.a); RF x=norm(N.b); return angRF(y,x,n);}
    case N_ABS: { bool neg=truth(N.a,NEG); RF a=norm(N.a); if(neg) a.num=pneg(a.num); return a;}
    case N_EXP: return expRF(RF(norm(N.a))); case N_LOG: return logRF(RF(norm(N.a)),n);
  } return RF();
}
const RF& norm(int n){
  if(rfCache.size()<nodes.size()) rfCache.resize(nodes.size()+64,nullptr);
  if(rfCache[n]) return *rfCache[n];
  for(int tries=0;;tries++){ int ep=epoch; RF*r=new RF(normNew(n)); if(ep==epoch||tries>12){ if(rfCache.size()<nodes.size()) rfCache.resize(nodes.size()+64,nullptr); rfCache[n]=r; return *r; } delete r; }
}
}
