// Differentiable motions: every coordinate gets an arbitrary rate and acceleration. D(e) is the total time derivative of an
// expression along the motion (exact chain rule symbolically, finite differences in a concrete replay).
#pragma once
#include "kx.h"
namespace kx {
struct Mot{
  double s=0; std::vector<double> q,qd,qdd; Mot(){ if(vx::concrete()) s=vx::real_s("time",1e-20,1e-20); }
  struct Q{ double q,d,dd; };
  Q var(const string&n){ double a=vx::real(n),b=vx::real(n+".d"),c=vx::real(n+".dd"); if(vx::concrete()){ a=a+b*s+0.5*c*s*s; b=b+c*s; } else { q.push_back(a); qd.push_back(b); qdd.push_back(c);} return {a,b,c}; }
  Q var1(const string&n){ double a=vx::real(n),b=vx::real(n+".d"); if(vx::concrete()) a=a+b*s; else { q.push_back(a); qd.push_back(b); qdd.push_back(0);} return {a,b,0}; }
  double D(double e)const{ if(vx::concrete()) return vx::diff(e,s); double r=0; for(size_t i=0;i<q.size();i++){ double t=vx::diff(e,q[i]); r=r+t*qd[i]; } for(size_t i=0;i<q.size();i++) if(vx::is_sym(qdd[i])){ double t=vx::diff(e,qd[i]); r=r+t*qdd[i]; } return r; }
  double DD(double e)const{ if(vx::concrete()) return vx::diff2(e,s); return D(D(e)); }
  V3 D(V3 a)const{ return v3(D(a[0]),D(a[1]),D(a[2])); } V3 DD(V3 a)const{ return v3(DD(a[0]),DD(a[1]),DD(a[2])); }
  M3 D(const M3&a)const{ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=D(a.m[i][j]); return r; } M3 DD(const M3&a)const{ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=DD(a.m[i][j]); return r; }
  struct MV{ V3 p,v,a; }; struct MR{ M3 R; V3 w,dw; };
  MV vec(const string&n){ Q x=var(n+".x"),y=var(n+".y"),z=var(n+".z"); return {v3(x.q,y.q,z.q),v3(x.d,y.d,z.d),v3(x.dd,y.dd,z.dd)}; }
  MV vec1(const string&n){ Q x=var1(n+".x"),y=var1(n+".y"),z=var1(n+".z"); return {v3(x.q,y.q,z.q),v3(x.d,y.d,z.d),v3(0,0,0)}; }
  MR mk(Q a,Q b,Q c){ M3 A=rotz(a.q),B=mul(A,roty(b.q)); V3 z=v3(0,0,1),e2=mul(A,v3(0,1,0)),e3=mul(B,v3(1,0,0)); MR r; r.R=mul(B,rotx(c.q)); r.w=a.d*z+b.d*e2+c.d*e3; r.dw=a.dd*z+b.dd*e2+c.dd*e3+a.d*cross(z,b.d*e2+c.d*e3)+(b.d*c.d)*cross(e2,e3); return r; }
  MR rot(const string&n){ Q a=var(n+".a"),b=var(n+".b"),c=var(n+".c"); return mk(a,b,c); }   // every orientation with every angular velocity/acceleration (generic pitch)
  MR rot1(const string&n){ Q a=var1(n+".a"),b=var1(n+".b"),c=var1(n+".c"); return mk(a,b,c); }
};
}
