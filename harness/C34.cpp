// SRC: velocityprofile_trap frames utilities/utility
// BOUNDS: every start and goal, every positive velocity and acceleration limit, every requested duration (shorter, longer, zero, negative) and velocity fraction, every query time (before, within each phase, after), replanning the same object up to twice
#include "kx.h"
#include <velocityprofile_trap.hpp>
using namespace KDL; using namespace kx;
// independent trapezoid: distance D>=0 at rest, limits V, A; returns duration and state at time t of the fastest motion
struct Ref{ double D,V,A,ta,T,vp; bool full; Ref(double d,double v,double a):D(d),V(v),A(a){ full=V*V<A*D; if(full){ ta=V/A; T=D/V+V/A; vp=V; } else { ta=sqrt(D/A); T=2*ta; vp=A*ta; } }
  void at(double t,double&p,double&v,double&a)const{ if(t<0){ p=0;v=0;a=0; } else if(t<ta){ p=A*t*t/2; v=A*t; a=A; } else if(t<T-ta){ p=A*ta*ta/2+vp*(t-ta); v=vp; a=0; } else if(t<=T){ double r=T-t; p=D-A*r*r/2; v=A*r; a=-A; } else { p=D;v=0;a=0; } } };
static double pos(const string&n,double lo=0.1,double hi=5){ double x=vx::real_s(n,lo,hi); vx::assume_lt(0,x); return x; }
// compares the profile with the fastest one played at 1/f of its speed (f>=1: slower)
static void judge(const string&l,const VelocityProfile_Trap&P,double s,double e,double V,double A,double f,const Ref&r,double sg,bool limits=true){ eq(l+" duration",P.Duration(),r.T*f); double t=vx::real_s(l+" time",-1,8),p,v,a; double tt=t/f; if(vx::is_sym(f)==false&&f==1) tt=t; r.at(tt,p,v,a); double pp=P.Pos(t),pv=P.Vel(t),pa=P.Acc(t); eq(l+" position",pp,s+sg*p,1e-5); eq(l+" velocity",pv,sg*v/f,1e-5); eq(l+" acceleration",pa,sg*a/(f*f),1e-5);
  if(limits){ vx::check_le(l+" velocity limit",sg*pv,V); vx::check_le(l+" no reversal",0,sg*pv); vx::check_le(l+" acceleration limit",pa,A); vx::check_le(l+" deceleration limit",-A,pa); vx::check_le(l+" not before the start",0,sg*(pp-s)); vx::check_le(l+" not beyond the goal",0,sg*(e-pp)); }
  if(vx::is_sym(t)&&vx::is_sym(pp)&&t>0){ double d=vx::diff(pp,t); eq(l+" velocity is the derivative",pv,d,1e-3); if(vx::is_sym(pv)){ double dd=vx::diff(pv,t); eq(l+" acceleration is the derivative",pa,dd,1e-3); } }
  eq(l+" starts at the start",P.Pos(0),s); eq(l+" ends at the goal",P.Pos(P.Duration()),e,1e-5); eq(l+" at rest at the end",P.Vel(P.Duration()),0,1e-5); eq(l+" before",P.Pos(-1),s); eq(l+" after",P.Pos(P.Duration()+1),e); eq(l+" at rest before",P.Vel(-1),0); eq(l+" at rest after",P.Vel(P.Duration()+1),0); eq(l+" no acceleration after",P.Acc(P.Duration()+1),0); }
struct In{ double s,e,V,A,sg; }; static In in(const string&n){ In i; i.s=vx::real(n+"start"); i.e=vx::real(n+"goal"); i.V=pos(n+"maxvel"); i.A=pos(n+"maxacc"); i.sg=i.e>=i.s?1:-1; return i; }
static VelocityProfile_Trap* make(const In&i){ VelocityProfile_Trap*p; int h=vx::choose("history",3); if(h==1){ p=new VelocityProfile_Trap(9,9); p->SetProfileDuration(-3,4,1000); p->SetMax(i.V,i.A); } else p=new VelocityProfile_Trap(i.V,i.A); if(h==2) p->SetProfile(3,-4); return p; }
VX_CASE(fastest){ In i=in(""); auto p=make(i); p->SetProfile(i.s,i.e); Ref r(i.sg*(i.e-i.s),i.V,i.A); judge("fastest",*p,i.s,i.e,i.V,i.A,1,r,i.sg); vx::reach(r.full?"full":"short"); delete p; }
VX_CASE(shorter_than_possible){ In i=in(""); auto p=make(i); Ref r(i.sg*(i.e-i.s),i.V,i.A); double T=vx::flip("zero")?0.0:vx::real("T"); vx::assume_le(T,r.T); p->SetProfileDuration(i.s,i.e,T); judge("too short a duration",*p,i.s,i.e,i.V,i.A,1,r,i.sg); delete p; }
VX_CASE(duration){ In i=in(""); vx::assume_ne(i.s,i.e); auto p=make(i); Ref r(i.sg*(i.e-i.s),i.V,i.A); double T=vx::real_s("T",1,20); vx::assume_lt(r.T,T); p->SetProfileDuration(i.s,i.e,T); eq("duration met",p->Duration(),T); judge("prolonged",*p,i.s,i.e,i.V,i.A,T/r.T,r,i.sg); delete p; }
VX_CASE(no_distance){ In i=in(""); i.e=i.s; double T=vx::flip("zero")?0.0:pos("T"); auto p=make(i); if(vx::flip("plain")){ p->SetProfile(i.s,i.s); T=0; } else p->SetProfileDuration(i.s,i.s,T); eq("duration",p->Duration(),T); double t=vx::real("t"); eq("stays",p->Pos(t),i.s); eq("at rest",p->Vel(t),0); if(t!=0) eq("no acceleration",p->Acc(t),0); eq("stays now",p->Pos(0),i.s); delete p; }
VX_CASE(velocity_fraction){ In i=in(""); vx::assume_ne(i.s,i.e); auto p=make(i); Ref r(i.sg*(i.e-i.s),i.V,i.A); double f=vx::real_s("fraction",0.05,1.5); p->SetProfileVelocity(i.s,i.e,f); double g=f>1?1.0:f<KDL::epsilon?KDL::epsilon:f; judge("fraction",*p,i.s,i.e,i.V,i.A,1/g,r,i.sg); delete p; }
