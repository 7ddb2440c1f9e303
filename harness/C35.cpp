// SRC: velocityprofile_traphalf frames utilities/utility
// BOUNDS: every start and goal, every positive velocity and acceleration limit, both flavours (starting, ending), every requested duration (shorter, longer, zero, negative), every query time, replanning the same object
#include "kx.h"
#include <velocityprofile_traphalf.hpp>
using namespace KDL; using namespace kx;
static double pos(const string&n,double lo=0.1,double hi=5){ double x=vx::real_s(n,lo,hi); vx::assume_lt(0,x); return x; }
struct In{ double s,e,V,A,sg,D; bool st; }; static In in(const string&n){ In i; i.s=vx::real(n+"start"); i.e=vx::real(n+"goal"); i.V=pos(n+"maxvel"); i.A=pos(n+"maxacc"); i.sg=i.e>=i.s?1:-1; i.D=i.sg*(i.e-i.s); i.st=vx::flip("starting"); return i; }
static VelocityProfile_TrapHalf* make(const In&i){ VelocityProfile_TrapHalf*p; int h=vx::choose("history",3); if(h==1){ p=new VelocityProfile_TrapHalf(9,9,!i.st); p->SetProfileDuration(-3,4,1000); p->SetMax(i.V,i.A,i.st); } else p=new VelocityProfile_TrapHalf(i.V,i.A,i.st); if(h==2) p->SetProfile(3,-4); return p; }
// reference: rest phase w, then ramp of acceleration a up to speed v over v/a, then constant speed for c (mirrored in time when ending)
struct Ref{ double w,v,a,c,T,D; Ref(double D,double v,double a,double T):v(v),a(a),T(T),D(D){ double ramp=v*v/(2*a); c=(D-ramp)/v; w=T-v/a-c; }
  void half(double t,double&p,double&u,double&b)const{ double ta=v/a; if(t<w){ p=0;u=0;b=0; } else if(t<w+ta){ double x=t-w; p=a*x*x/2; u=a*x; b=a; } else { p=D-v*(T-t); u=v; b=0; } }
  void at(bool st,double t,double&p,double&u,double&b)const{ if(t<0){ p=0;u=0;b=0; return; } if(t>T){ p=D;u=0;b=0; return; } if(st) half(t,p,u,b); else { half(T-t,p,u,b); p=D-p; b=-b; } } };
static void judge(const string&l,const In&i,const VelocityProfile_TrapHalf&P,const Ref&r){ eq(l+" duration",P.Duration(),r.T,1e-5); double t=vx::real_s(l+" time",-1,8),p,v,a; // phase boundaries are judged by continuity of position and velocity: there the acceleration is not unique
  double ta=i.st?r.w:r.T-r.w,tb=i.st?r.w+r.v/r.a:r.T-r.w-r.v/r.a; vx::assume_ne(t,0); vx::assume_ne(t,r.T); if(vx::flip("boundary")){ t=vx::flip("first")?ta:tb; r.at(i.st,t,p,v,a); eq(l+" position at a phase change",P.Pos(t),i.s+i.sg*p,1e-4); if(t>0&&t<r.T) eq(l+" velocity at a phase change",P.Vel(t),i.sg*v,1e-4); return; }
  vx::assume_ne(t,ta); vx::assume_ne(t,tb); r.at(i.st,t,p,v,a); double pp=P.Pos(t),pv=P.Vel(t),pa=P.Acc(t); eq(l+" position",pp,i.s+i.sg*p,1e-4); eq(l+" velocity",pv,i.sg*v,1e-4); eq(l+" acceleration",pa,i.sg*a,1e-4);
  vx::check_le(l+" velocity limit",i.sg*pv,i.V); vx::check_le(l+" no reversal",0,i.sg*pv); vx::check_le(l+" acceleration limit",pa,i.A); vx::check_le(l+" deceleration limit",-i.A,pa); vx::check_le(l+" not before the start",0,i.sg*(pp-i.s)); vx::check_le(l+" not beyond the goal",0,i.sg*(i.e-pp));
  if(vx::is_sym(t)&&vx::is_sym(pp)&&t>0&&t<r.T){ double d=vx::diff(pp,t); eq(l+" velocity is the derivative",pv,d,1e-3); if(vx::is_sym(pv)){ double dd=vx::diff(pv,t); eq(l+" acceleration is the derivative",pa,dd,1e-3); } }
  eq(l+" starts at the start",P.Pos(0),i.s,1e-5); eq(l+" ends at the goal",P.Pos(P.Duration()),i.e,1e-5); eq(l+" before",P.Pos(-1),i.s); eq(l+" after",P.Pos(P.Duration()+1),i.e); eq(l+" at rest after",P.Vel(P.Duration()+1),0); eq(l+" at rest before",P.Vel(-1),0); eq(l+" no acceleration before",P.Acc(-1),0); eq(l+" no acceleration after",P.Acc(P.Duration()+1),0); }
// speed reached by the fastest profile, and its duration
static void fast(const In&i,double&v,double&T){ if(i.V*i.V<2*i.D*i.A) v=i.V; else v=sqrt(2*i.D*i.A); T=i.D/v+v/(2*i.A); }
VX_CASE(fastest){ In i=in(""); vx::assume_ne(i.s,i.e); auto p=make(i); double v,T; fast(i,v,T); p->SetProfile(i.s,i.e); judge("fastest",i,*p,Ref(i.D,v,i.A,T)); delete p; }
VX_CASE(shorter_than_possible){ In i=in(""); vx::assume_ne(i.s,i.e); auto p=make(i); double v,T; fast(i,v,T); double n=vx::flip("zero")?0.0:vx::real("T"); vx::assume_le(n,T); p->SetProfileDuration(i.s,i.e,n); judge("too short a duration",i,*p,Ref(i.D,v,i.A,T)); delete p; }
// prolonged: the acceleration is lowered so that the same speed is reached at the given duration; when the constant part has disappeared the motion waits
VX_CASE(prolonged){ In i=in(""); vx::assume_ne(i.s,i.e); auto p=make(i); double v,T; fast(i,v,T); double n=vx::real_s("T",1,20); vx::assume_lt(T,n); p->SetProfileDuration(i.s,i.e,n); eq("duration met",p->Duration(),n); double a; if(n*v<2*i.D) a=v*v/(2*(v*n-i.D)); else a=v*v/(2*i.D); judge("prolonged",i,*p,Ref(i.D,v,a,n)); vx::reach(n*v<2*i.D?"lowered":"waits"); delete p; }
VX_CASE(no_distance){ In i=in(""); i.e=i.s; double T=vx::flip("zero")?0.0:pos("T"); auto p=make(i); if(vx::flip("plain")){ p->SetProfile(i.s,i.s); T=0; } else p->SetProfileDuration(i.s,i.s,T); eq("duration",p->Duration(),T); double t=vx::real("t"); eq("stays",p->Pos(t),i.s); eq("at rest",p->Vel(t),0); eq("stays now",p->Pos(0),i.s); delete p; }
