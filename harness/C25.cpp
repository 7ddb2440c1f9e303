// SRC: frames utilities/utility joint segment chain tree rigidbodyinertia rotationalinertia jntarray chainidsolver_recursive_newton_euler treeidsolver_recursive_newton_euler
// BOUNDS: chains of 0..2 segments over all 9 joint types, 3 segments over 4 types; trees without branching of up to 2 segments and trees of two and three branching segments; all inertias, rotor inertias, gravity, positions, rates, accelerations and external wrenches; general axis directions fixed to one direction; arms of 3, 4 and 7 revolute and 7 to 9 mixed joints and a branched body of eight segments with given geometry and inertias, symbolic rotor inertias, gravity, states and external wrenches
#include "dyn.h"
#include <tree.hpp>
#include <chainidsolver_recursive_newton_euler.hpp>
#include <treeidsolver_recursive_newton_euler.hpp>
using namespace KDL; using namespace kx;
static std::vector<double> ref(const DC&d,const std::vector<double>&q,const std::vector<double>&qd,const std::vector<double>&qdd,const std::vector<Tw>&f){ int n=d.nj(); auto M=d.M(q); auto c=d.cor(q,qd); auto g=d.grav(q); auto j=d.jtf(q,f); std::vector<double> r(n); for(int i=0;i<n;i++){ r[i]=c[i]+g[i]-j[i]; for(int k=0;k<n;k++) r[i]=r[i]+M[i][k]*qdd[k]; } return r; }
static Wrenches wr(const std::vector<Tw>&f){ Wrenches r; for(auto&x:f) r.push_back(kw(x)); return r; }
static void judge(const DC&d){ Chain C=d.chain(); int n=d.nj(); ChainIdSolver_RNE S(C,kv(d.g)); auto q=svq("q",n),qd=svq("qd",n),qdd=svq("qdd",n),old=svq("old",n); auto f=swr("f",d.ns()),fo=swr("fo",d.ns()); JntArray t(n); S.CartToJnt(ja(old),ja(qdd),ja(qd),wr(fo),t);
  vx::check("code",S.CartToJnt(ja(q),ja(qd),ja(qdd),wr(f),t)==0&&S.getError()==0); auto r=ref(d,q,qd,qdd,f); for(int i=0;i<n;i++) eq(idx("torque",i),t(i),r[i],1e-3); 
  Tree T("root"); string par="root"; for(int i=0;i<d.ns();i++){ vx::check("add",T.addSegment(d.c.s[i].seg(idx("s",i),d.I[i].rbi(),d.rotor[i]),par)); par=idx("s",i); } TreeIdSolver_RNE ts(T,kv(d.g)); WrenchMap m; for(int i=0;i<d.ns();i++) m[idx("s",i)]=kw(fo[i]); JntArray u(n); ts.CartToJnt(ja(old),ja(qdd),ja(qd),m,u); m.clear(); for(int i=0;i<d.ns();i++) m[idx("s",i)]=kw(f[i]); vx::check("tree code",ts.CartToJnt(ja(q),ja(qd),ja(qdd),m,u)==0); for(int i=0;i<n;i++) eq(idx("tree torque",i),u(i),t(i)); }
static const int FREE[]={1,2,2}, TR[]={2,2,2,2}, RX[]={3,2,2};
VX_CASE(chain0){ judge(mkd(0,0,0,true,FREE,0)); }
VX_CASE(chain1){ judge(mkd(1,0,0,true,FREE,0)); }
VX_CASE(chain2){ judge(mkd(2,0,0,true,RX,1)); }
VX_CASE(chain2_full_inertia){ int t[]={7,8}; judge(mkd(2,t,2,true,RX,0)); }
VX_CASE(chain3){ int t[]={0,7,5,6}; judge(mkd(3,t,4,false,TR,2,true,false)); }
VX_CASE_THOROUGH(chain3_all){ judge(mkd(3,0,9,true,TR,1)); }
// branches: torques of a tree are the sum of those of the chains from the root to each leaf, with the shared links' own inertia and wrench counted once
struct TD{ std::vector<SS> s; std::vector<int> par; std::vector<RI> I; std::vector<double> rotor; V3 g; };
static void branch(const TD&t,const std::vector<int>&order,bool named){ int ns=t.s.size(); Tree T("base"); auto nm=[&](int i){ return i<0?string("base"):idx(named?"z":"s",named?ns-i:i); };
  std::vector<int> qn(ns,-1); int n=0; for(int i:order){ vx::check("add",T.addSegment(t.s[i].seg(nm(i),t.I[i].rbi(),t.rotor[i]),nm(t.par[i]))); if(t.s[i].j.moving()) qn[i]=n++; }
  auto q=svq("q",n),qd=svq("qd",n),qdd=svq("qdd",n); auto f=swr("f",ns); std::vector<double> want(n,0.0); 
  for(int leaf=0;leaf<ns;leaf++){ bool has=false; std::vector<int> path; for(int i=leaf;i>=0;i=t.par[i]) path.insert(path.begin(),i); (void)has;   // the chain to every link carries that link's own inertia, wrench and rotor only
    DC d; d.g=t.g; std::vector<double> cq,cd,cdd; std::vector<Tw> cf; std::vector<int> map; for(int i:path){ d.c.s.push_back(t.s[i]); d.I.push_back(i==leaf?t.I[i]:zri()); d.rotor.push_back(i==leaf?t.rotor[i]:0.0); cf.push_back(i==leaf?f[i]:Tw{v3(0,0,0),v3(0,0,0)}); if(qn[i]>=0){ map.push_back(qn[i]); cq.push_back(q[qn[i]]); cd.push_back(qd[qn[i]]); cdd.push_back(qdd[qn[i]]); } }
    auto r=ref(d,cq,cd,cdd,cf); for(size_t k=0;k<map.size();k++) want[map[k]]=want[map[k]]+r[k]; }
  TreeIdSolver_RNE S(T,kv(t.g)); WrenchMap m; for(int i=0;i<ns;i++) m[nm(i)]=kw(f[i]); JntArray u(n); vx::check("code",S.CartToJnt(ja(q),ja(qd),ja(qdd),m,u)==0&&S.getError()==0); for(int i=0;i<n;i++) eq(idx("torque",i),u(i),want[i],1e-3);
  // wrenches may be left out: they count as zero
  WrenchMap one; one[nm(ns-1)]=kw(f[ns-1]); WrenchMap z=m; for(int i=0;i<ns-1;i++) z[nm(i)]=Wrench::Zero(); JntArray a(n),b(n); vx::check("code (partial wrenches)",S.CartToJnt(ja(q),ja(qd),ja(qdd),one,a)==0&&S.CartToJnt(ja(q),ja(qd),ja(qdd),z,b)==0); for(int i=0;i<n;i++) eq(idx("absent wrench is zero",i),a(i),b(i)); }
static TD mkt(const std::vector<int>&par,const int*types,int nt){ TD t; t.par=par; for(size_t i=0;i<par.size();i++){ SS s; s.j=mkj(idx("j",i),types[vx::choose(idx("type",i),nt)],true,false,false); s.tip=mktip(idx("t",i),2); t.s.push_back(s); RI r=sri(idx("I",i),1); r.I=scale(0,eye()); t.I.push_back(r); t.rotor.push_back(vx::real(idx("rotor",i))); } t.g=sv("g"); return t; }
VX_CASE(two_branches){ int t[]={7,8,0,6}; branch(mkt({-1,-1},t,4),vx::flip("order")?std::vector<int>{0,1}:std::vector<int>{1,0},false); }
VX_CASE(fork){ int t[]={7,5,6}; static const std::vector<int> o[]={{0,1,2},{0,2,1}}; branch(mkt({-1,0,0},t,3),o[vx::choose("order",2)],vx::flip("names")); }
VX_CASE_THOROUGH(fork4){ int t[]={2,5,6}; branch(mkt({-1,0,1,0},t,3),{0,3,1,2},true); }
// more joints than a task has degrees of freedom; arms of turning joints (given geometry and inertias)
VX_CASE(arm){ judge(dynarm(arm())); }
VX_CASE(arm3){ static const int t[]={2,1,0}; judge(dynarm(t,3)); }
VX_CASE(arm4){ static const int t[]={2,1,1,2}; judge(dynarm(t,4)); }
VX_CASE(arm7){ static const int t[]={2,1,2,1,2,1,2}; judge(dynarm(t,7)); }
// a trunk with two arms (given geometry and inertias)
VX_CASE(body){ static const int ty[]={2,5,1,4,6,1,0,5}; TD t; t.par={-1,0,1,2,3,1,5,6}; DC d=dynarm(ty,8); t.s=d.c.s; t.I=d.I; t.rotor=d.rotor; t.g=d.g; static const std::vector<int> o[]={{0,1,2,3,4,5,6,7},{0,1,5,2,6,3,7,4}}; branch(t,o[vx::choose("order",2)],vx::flip("names")); }
