// Reference dynamics of a symbolic chain from the Lagrangian (kinetic energy from geometric Jacobians, potential energy from cog positions).
#pragma once
#include "iner.h"
namespace kx {
struct DC{ SC c; std::vector<RI> I; std::vector<double> rotor; V3 g;
  int nj()const{ return c.nj(); } int ns()const{ return c.s.size(); }
  KDL::Chain chain()const{ KDL::Chain r; for(int i=0;i<ns();i++) r.addSegment(c.s[i].seg(idx("s",i),I[i].rbi(),rotor[i])); return r; }
  std::vector<std::vector<double>> M(const std::vector<double>&q)const{ int n=nj(); std::vector<std::vector<double>> r(n,std::vector<double>(n,0.0)); int k=0; for(int i=0;i<ns();i++) if(c.s[i].j.moving()){ r[k][k]=r[k][k]+rotor[i]; k++; }
    for(int s=0;s<ns();s++){ P T=c.pose(q,s+1); V3 rc=mul(T.R,I[s].c); int m=c.before(s+1); std::vector<V3> vc(m),wb(m),Iw(m); for(int j=0;j<m;j++){ Tw t=c.col(q,j,s+1); vc[j]=t.v+cross(t.w,rc); wb[j]=mulT(T.R,t.w); Iw[j]=mul(I[s].I,wb[j]); }
      for(int i=0;i<m;i++) for(int j=0;j<m;j++) r[i][j]=r[i][j]+I[s].m*dot(vc[i],vc[j])+dot(wb[i],Iw[j]); } return r; }
  double U(const std::vector<double>&q)const{ double u=0; for(int s=0;s<ns();s++){ P T=c.pose(q,s+1); u=u-I[s].m*dot(g,T.p+mul(T.R,I[s].c)); } return u; }
  std::vector<double> grav(const std::vector<double>&q)const{ std::vector<double> r; double u=U(q); for(int k=0;k<nj();k++) r.push_back(vx::diff(u,q[k])); return r; }
  std::vector<double> cor(const std::vector<double>&q,const std::vector<double>&qd)const{ int n=nj(); auto m=M(q); std::vector<double> r(n,0.0); for(int k=0;k<n;k++) for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double a=vx::diff(m[k][j],q[i]),b=vx::diff(m[i][j],q[k]); r[k]=r[k]+(a-0.5*b)*qd[i]*qd[j]; } return r; }
  // generalised force of wrenches given in the segment tip frames, at the tip
  std::vector<double> jtf(const std::vector<double>&q,const std::vector<Tw>&f)const{ std::vector<double> r(nj(),0.0); for(int s=0;s<ns();s++){ P T=c.pose(q,s+1); V3 F=mul(T.R,f[s].v),N=mul(T.R,f[s].w); for(int j=0;j<c.before(s+1);j++){ Tw t=c.col(q,j,s+1); r[j]=r[j]+dot(t.v,F)+dot(t.w,N); } } return r; } };
// inertia kinds: 0 full, 1 diagonal rotational inertia, 2 point mass
inline DC mkd(int n,const int*types,int nt,bool scaled,const int*tips,int ik,bool rotor=true,bool symorg=true){ DC d; for(int i=0;i<n;i++){ SS s; int k=types?types[nt==1?0:vx::choose(idx("type",i),nt)]:vx::choose(idx("type",i),9); s.j=mkj(idx("j",i),k,scaled,false,symorg); s.tip=mktip(idx("t",i),tips[i]); d.c.s.push_back(s); RI r=sri(idx("I",i),ik>0); if(ik==2) r.I=scale(0,eye()); d.I.push_back(r); d.rotor.push_back(rotor?vx::real(idx("rotor",i)):0.0); } d.g=sv("g"); return d; }
inline std::vector<Tw> swr(const string&n,int k){ std::vector<Tw> r; for(int i=0;i<k;i++) r.push_back(stw(idx(n,i))); return r; }
// arms with given geometry and inertias (all rotor inertias, gravity vectors and states)
inline RI gri(int i){ double k=0.25*(i+1); return {1.0+0.5*i,v3(0.125,-0.0625*i,0.25),{{{k,0.03125,-0.0625},{0.03125,k+0.5,0.125},{-0.0625,0.125,1.0}}}}; }
inline DC dynarm(const SC&c){ DC d; d.c=c; for(size_t i=0;i<c.s.size();i++){ d.I.push_back(gri(i)); d.rotor.push_back(vx::real(idx("rotor",i))); } d.g=sv("g"); return d; }
inline DC dynarm(const int*types,int n){ return dynarm(arm(types,n)); }
}
