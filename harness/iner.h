// Symbolic inertias and their independent reference (mass, cog, inertia about the cog).
#pragma once
#include "chn.h"
#include <rigidbodyinertia.hpp>
#include <articulatedbodyinertia.hpp>
namespace kx {
struct RI{ double m; V3 c; M3 I;                                          // I about the cog, symmetric
  KDL::RigidBodyInertia rbi()const{ return KDL::RigidBodyInertia(m,kv(c),KDL::RotationalInertia(I.m[0][0],I.m[1][1],I.m[2][2],I.m[0][1],I.m[0][2],I.m[1][2])); }
  Tw mom(const Tw&t)const{ V3 p=m*(t.v+cross(t.w,c)); return {p,mul(I,t.w)+cross(c,p)}; }         // force part: linear momentum, torque part: angular momentum about the reference point
  double energy(const Tw&t)const{ V3 vc=t.v+cross(t.w,c); return 0.5*(m*dot(vc,vc)+dot(t.w,mul(I,t.w))); } };
inline RI sri(const string&n,int kind=0){ RI r; r.m=vx::real(n+".m"); r.c=sv(n+".cog"); double a=vx::real(n+".Ixx"),b=vx::real(n+".Iyy"),c=vx::real(n+".Izz"),d=0,e=0,f=0; if(!kind){ d=vx::real(n+".Ixy"); e=vx::real(n+".Ixz"); f=vx::real(n+".Iyz"); } r.I={{{a,d,e},{d,b,f},{e,f,c}}}; return r; }
inline RI zri(){ return {0,v3(0,0,0),scale(0,eye())}; }
inline Tw stw(const string&n){ return {sv(n+".v"),sv(n+".w")}; }
inline KDL::Twist kt(const Tw&t){ return KDL::Twist(kv(t.v),kv(t.w)); }
inline KDL::Wrench kw(const Tw&t){ return KDL::Wrench(kv(t.v),kv(t.w)); }
inline void eqw(const string&l,const KDL::Wrench&a,const Tw&b,double tol=1e-6){ eq(l+".force",of(a.force),b.v,tol); eq(l+".torque",of(a.torque),b.w,tol); }
}
