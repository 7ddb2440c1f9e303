// Atoms, monomials, polynomials modulo square rules, rational functions.
#pragma once
#include "vxq.h"
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <set>
namespace vx {
[[noreturn]] void path_abort(const char*why);
enum AK{A_VAR,A_PI,A_SIN,A_COS,A_SQRT,A_ANG,A_EXP,A_LOG};
typedef std::vector<std::pair<int,Q>> Poly;             // sorted by monomial id
typedef std::vector<std::pair<int,int>> MonoV;           // sorted (atom,exp>0)
struct RF{ Poly num; std::vector<std::pair<int,int>> den; };
struct Atom{ AK k; int node; int pair; double lo,hi; Poly sq; bool hassq; std::string key; Poly x1,x2; /*angle facts: sin,cos numerators*/ bool facts=false; bool dead=false; };
extern std::vector<Atom> atoms;
extern std::map<int,Poly> elim;
extern std::vector<MonoV> monos; extern std::map<MonoV,int> monoIdx; extern std::unordered_map<uint64_t,int> mulCache;
extern std::vector<Poly*> redCache; // null = unknown ; pointer to &trivialMark = itself
extern Poly trivialMark;
extern std::vector<Poly> factors; extern std::unordered_map<std::string,int> factorIdx;
extern size_t POLYLIMIT;
inline int monoIntern(const MonoV&m){ auto it=monoIdx.find(m); if(it!=monoIdx.end()) return it->second; int id=monos.size(); monos.push_back(m); monoIdx[m]=id; return id; }
inline int mono1(){ return 0; }
inline int monoAtom(int a,int e=1){ return monoIntern(MonoV{{a,e}}); }
inline int monoMul(int a,int b){
  if(a==0) return b; if(b==0) return a; if(a>b) std::swap(a,b);
  uint64_t k=((uint64_t)a<<32)|(uint32_t)b; auto it=mulCache.find(k); if(it!=mulCache.end()) return it->second;
  MonoV r; const MonoV x=monos[a],y=monos[b]; size_t i=0,j=0;
  while(i<x.size()||j<y.size()){ if(j>=y.size()||(i<x.size()&&x[i].first<y[j].first)) r.push_back(x[i++]); else if(i>=x.size()||y[j].first<x[i].first) r.push_back(y[j++]); else { r.push_back({x[i].first,x[i].second+y[j].second}); i++;j++; } }
  int id=monoIntern(r); mulCache[k]=id; return id;
}
inline Poly pconst(const Q&q){ Poly p; if(!q.zero()) p.push_back({0,q}); return p; }
inline Poly patom(int a){ return Poly{{monoAtom(a),Q(1)}}; }
inline bool pIsConst(const Poly&p){ return p.empty()||(p.size()==1&&p[0].first==0); }
inline Q pConst(const Poly&p){ return p.empty()?Q(0):p[0].second; }
inline Poly padd(const Poly&a,const Poly&b,bool neg=false){
  Poly r; r.reserve(a.size()+b.size()); size_t i=0,j=0;
  while(i<a.size()||j<b.size()){
    if(j>=b.size()||(i<a.size()&&a[i].first<b[j].first)) r.push_back(a[i++]);
    else if(i>=a.size()||b[j].first<a[i].first){ r.push_back({b[j].first,neg?-b[j].second:b[j].second}); j++; }
    else { Q q=neg?a[i].second-b[j].second:a[i].second+b[j].second; if(!q.zero()) r.push_back({a[i].first,std::move(q)}); i++;j++; }
  } return r;
}
inline Poly psub(const Poly&a,const Poly&b){ return padd(a,b,true); }
inline Poly pscale(const Poly&a,const Q&q){ Poly r; if(q.zero()) return r; r.reserve(a.size()); for(auto&t:a) r.push_back({t.first,t.second*q}); return r; }
inline Poly pneg(const Poly&a){ return pscale(a,Q(-1)); }
inline void pcollect(std::vector<std::pair<int,Q>>&v){
  std::sort(v.begin(),v.end(),[](const std::pair<int,Q>&x,const std::pair<int,Q>&y){return x.first<y.first;});
  size_t o=0; for(size_t i=0;i<v.size();){ size_t j=i+1; Q s=std::move(v[i].second); int m=v[i].first; while(j<v.size()&&v[j].first==m){ s=s+v[j].second; j++; } if(!s.zero()){ v[o].first=m; v[o].second=std::move(s); o++; } i=j; } v.resize(o);
}
Poly pmul(const Poly&a,const Poly&b);
inline const Poly* monoReduce(int id){ // nullptr: already reduced
  if((int)redCache.size()<=id) redCache.resize(std::max<size_t>(monos.size(),id+1),nullptr);
  if(redCache[id]) return redCache[id]==&trivialMark?nullptr:redCache[id];
  const MonoV m=monos[id]; int k=-1; for(size_t i=0;i<m.size();i++) if(m[i].second>=2&&atoms[m[i].first].hassq){k=i;break;}
  if(k<0){ redCache[id]=&trivialMark; return nullptr; }
  MonoV rest=m; int e=m[k].second; if(e%2==0) rest.erase(rest.begin()+k); else rest[k].second=1;
  Poly base=atoms[m[k].first].sq; Poly pw=pconst(Q(1)); for(int i=0;i<e/2;i++) pw=pmul(pw,base);
  int rid=monoIntern(rest); Poly rp; const Poly*rr=monoReduce(rid); if(rr) rp=*rr; else rp=Poly{{rid,Q(1)}};
  Poly*res=new Poly(pmul(pw,rp)); if((int)redCache.size()<=id) redCache.resize(monos.size(),nullptr); redCache[id]=res; return res;
}
inline Poly pmul(const Poly&a,const Poly&b){
  if(a.empty()||b.empty()) return Poly();
  if(pIsConst(a)) return pscale(b,a[0].second); if(pIsConst(b)) return pscale(a,b[0].second);
  std::vector<std::pair<int,Q>> v; v.reserve(std::min<size_t>(a.size()*b.size(),1u<<20));
  for(auto&x:a){ for(auto&y:b){ int m=monoMul(x.first,y.first); Q c=x.second*y.second; const Poly*r=monoReduce(m); if(!r) v.push_back({m,std::move(c)}); else for(auto&t:*r) v.push_back({t.first,t.second*c}); }
    if(v.size()>(1u<<20)){ pcollect(v); if(v.size()>POLYLIMIT) path_abort("polynomial size limit"); } }
  pcollect(v); if(v.size()>POLYLIMIT) path_abort("polynomial size limit"); return v;
}
inline std::string pkey(const Poly&p){ std::string s; for(auto&t:p){ s+=std::to_string(t.first); s+=':'; s+=t.second.str(); s+=','; } return s; }
// lexicographic order on monomials (admissible)
inline int monoCmp(int a,int b){ if(a==b) return 0; const MonoV&x=monos[a],&y=monos[b]; size_t i=0; for(;;i++){ if(i>=x.size()&&i>=y.size()) return 0; if(i>=x.size()) return -1; if(i>=y.size()) return 1; if(x[i].first!=y[i].first) return x[i].first<y[i].first?1:-1; if(x[i].second!=y[i].second) return x[i].second>y[i].second?1:-1; } }
inline int monoDiv(int a,int b){ // a/b or -1
  if(b==0) return a; const MonoV&x=monos[a],&y=monos[b]; MonoV r; size_t i=0; for(size_t j=0;j<y.size();j++){ while(i<x.size()&&x[i].first<y[j].first) r.push_back(x[i++]); if(i>=x.size()||x[i].first!=y[j].first||x[i].second<y[j].second) return -1; if(x[i].second>y[j].second) r.push_back({x[i].first,x[i].second-y[j].second}); i++; } while(i<x.size()) r.push_back(x[i++]); return monoIntern(r);
}
inline int pLead(const Poly&p){ int k=0; for(size_t i=1;i<p.size();i++) if(monoCmp(p[i].first,p[k].first)>0) k=i; return k; }
inline bool pdivExact(const Poly&a,const Poly&b,Poly&q){ // plain (unreduced) exact division; sufficient test only
  struct L{ bool operator()(int x,int y)const{ return monoCmp(x,y)>0; } };
  std::map<int,Q,L> r; for(auto&t:a) r[t.first]=t.second;
  int lb=pLead(b); Poly quo; size_t steps=0;
  while(!r.empty()){
    auto it=r.begin(); int m=monoDiv(it->first,b[lb].first); if(m<0) return false; if(++steps>a.size()*2+50) return false;
    Q c=it->second/b[lb].second; quo.push_back({m,c});
    for(auto&t:b){ int mm=monoMul(m,t.first); auto f=r.find(mm); Q d=c*t.second; if(f==r.end()) r[mm]=-d; else { f->second=f->second-d; if(f->second.zero()) r.erase(f);} }
  }
  pcollect(quo); q=quo; return true;
}
inline Q pContent(const Poly&p){ // scale making leading (first) coefficient 1
  return p.empty()?Q(1):p[0].second; }
inline int factorIntern(const Poly&p){ std::string k=pkey(p); auto it=factorIdx.find(k); if(it!=factorIdx.end()) return it->second; int id=factors.size(); factors.push_back(p); factorIdx[k]=id; return id; }
inline void denMul(std::vector<std::pair<int,int>>&d,int f,int e){ for(auto&x:d) if(x.first==f){ x.second+=e; return; } d.push_back({f,e}); std::sort(d.begin(),d.end()); }
inline int facAtom(int f){ const Poly&p=factors[f]; if(p.size()==1&&monos[p[0].first].size()==1&&monos[p[0].first][0].second==1) return monos[p[0].first][0].first; return -1; }
void rfSimplify(RF&r);
inline RF rfPoly(const Poly&p){ RF r; r.num=p; return r; }
inline Poly ppow(const Poly&p,int e){ Poly r=pconst(Q(1)); for(int i=0;i<e;i++) r=pmul(r,p); return r; }
inline RF rfAdd(const RF&a,const RF&b,bool neg){
  if(a.num.empty()){ RF r=b; if(neg) r.num=pneg(r.num); return r; } if(b.num.empty()) return a;
  RF r; if(a.den==b.den){ r.num=padd(a.num,b.num,neg); r.den=a.den; }
  else {
    std::map<int,int> l; for(auto&x:a.den) l[x.first]=x.second; for(auto&x:b.den) l[x.first]=std::max(l[x.first],x.second);
    Poly na=a.num,nb=b.num; std::map<int,int> ma(a.den.begin(),a.den.end()),mb(b.den.begin(),b.den.end());
    for(auto&x:l){ int ea=x.second-(ma.count(x.first)?ma[x.first]:0),eb=x.second-(mb.count(x.first)?mb[x.first]:0); if(ea) na=pmul(na,ppow(factors[x.first],ea)); if(eb) nb=pmul(nb,ppow(factors[x.first],eb)); }
    r.num=padd(na,nb,neg); r.den.assign(l.begin(),l.end());
  }
  if(!r.den.empty()) rfSimplify(r); return r;
}
inline RF rfMul(const RF&a,const RF&b){ RF r; if(a.num.empty()||b.num.empty()) return r; r.num=pmul(a.num,b.num); r.den=a.den; for(auto&x:b.den) denMul(r.den,x.first,x.second); if(!r.den.empty()) rfSimplify(r); return r; }
inline RF rfScale(const RF&a,const Q&q){ RF r; r.num=pscale(a.num,q); if(!r.num.empty()) r.den=a.den; return r; }
inline RF rfDivPoly(const RF&a,const Poly&p,int e=1); 
inline void rfDivBy(RF&r,const Poly&p){ // r /= p  (p nonzero)
  if(pIsConst(p)){ r.num=pscale(r.num,Q(1)/pConst(p)); return; }
  // pull monomial content
  MonoV g=monos[p[0].first]; for(auto&t:p){ MonoV ng; const MonoV&m=monos[t.first]; size_t i=0; for(auto&x:g){ while(i<m.size()&&m[i].first<x.first) i++; if(i<m.size()&&m[i].first==x.first) ng.push_back({x.first,std::min(x.second,m[i].second)}); } g=ng; if(g.empty()) break; }
  Poly rest=p; if(!g.empty()){ int gid=monoIntern(g); rest.clear(); for(auto&t:p) rest.push_back({monoDiv(t.first,gid),t.second}); pcollect(rest); for(auto&x:g) denMul(r.den,factorIntern(patom(x.first)),x.second); }
  Q c=pContent(rest); r.num=pscale(r.num,Q(1)/c);
  if(!pIsConst(rest)) denMul(r.den,factorIntern(pscale(rest,Q(1)/c)),1);
}
inline RF rfDiv(const RF&a,const RF&b){ RF r=a; for(auto&x:b.den) r.num=pmul(r.num,ppow(factors[x.first],x.second)); rfDivBy(r,b.num); rfSimplify(r); return r; }
inline void rfSimplify(RF&r){
  if(r.num.empty()){ r.den.clear(); return; }
  // rationalise square-root atoms
  for(size_t i=0;i<r.den.size();i++){ int a=facAtom(r.den[i].first); if(a>=0&&atoms[a].hassq&&atoms[a].k==A_SQRT){ int e=r.den[i].second; r.den.erase(r.den.begin()+i); if(e%2) r.num=pmul(r.num,patom(a)); int h=(e+1)/2; for(int k=0;k<h;k++) rfDivBy(r,atoms[a].sq); i=(size_t)-1; } }
  bool ch=true; while(ch){ ch=false; for(size_t i=0;i<r.den.size();i++){ int f=r.den[i].first; int a=facAtom(f); Poly q; bool ok=false;
      if(a>=0){ ok=true; for(auto&t:r.num){ bool has=false; for(auto&x:monos[t.first]) if(x.first==a){has=true;break;} if(!has){ok=false;break;} } if(ok){ int ma=monoAtom(a); for(auto&t:r.num) q.push_back({monoDiv(t.first,ma),t.second}); pcollect(q);} }
      else if(r.num.size()*factors[f].size()<=60000&&r.num.size()>=factors[f].size()) ok=pdivExact(r.num,factors[f],q);
      if(ok){ r.num=q; if(--r.den[i].second==0) r.den.erase(r.den.begin()+i); ch=true; break; } } }
}
inline std::string rfKey(const RF&r){ std::string s=pkey(r.num)+"|"; for(auto&x:r.den) s+=std::to_string(x.first)+"^"+std::to_string(x.second)+","; return s; }
}
