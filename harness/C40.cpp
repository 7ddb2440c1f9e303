// SRC: trajectory_segment trajectory_composite trajectory_stationary frames utilities/utility path_composite
// BOUNDS: segments over any path and any quadratic profile; composites of one to three parts of any positive or zero duration, cleared and refilled up to once, every query time (before, inside any part, at joints, after)
#include "mock.h"
#include <trajectory_segment.hpp>
#include <trajectory_composite.hpp>
#include <trajectory_stationary.hpp>
using namespace KDL; using namespace kx;
static double pos(const string&n,double lo=0.1,double hi=5){ double x=vx::real_s(n,lo,hi); vx::assume_lt(0,x); return x; }
VX_CASE(segment){ double a=vx::real("a"),b=vx::real("b"),c=vx::real("c"),D=pos("D"),L=pos("L"); MProf*p=new MProf(a,b,c,D); MPath*g=new MPath(5,L); bool own=vx::flip("owned"),dur=vx::flip("with duration"); double T=vx::real("T"); int base=ALIVE; { Trajectory_Segment*S=dur?new Trajectory_Segment(g,p,T,own):new Trajectory_Segment(g,p,own); if(dur){ vx::check("planned once",p->calls==1); eq("from zero",p->p1,0); eq("over the path length",p->p2,L); eq("for the duration",p->dur,T); } else vx::check("profile left as planned",p->calls==0); vx::check("path",S->GetPath()==g); vx::check("profile",S->GetProfile()==p); double t=vx::real("t"); double s=a+t*(b+c*t),sd=b+2*c*t,sdd=2*c; eq("duration",S->Duration(),D); eq("pose",S->Pos(t),g->Pos(s)); eq("velocity",S->Vel(t),g->Vel(s,sd)); eq("acceleration",S->Acc(t),g->Acc(s,sd,sdd)); delete S; } vx::check("path and profile released only when owned",ALIVE==(own?base-2:base)); if(!own){ delete p; delete g; } }
VX_CASE(stationary){ Frame f=sframe("f"); double T=vx::real("T"),t=vx::real("t"); Trajectory_Stationary S(T,f); eq("duration",S.Duration(),T); eq("stays",S.Pos(t),f); eq("no velocity",S.Vel(t),Twist::Zero()); eq("no acceleration",S.Acc(t),Twist::Zero()); Trajectory*c=S.Clone(); eq("clone duration",c->Duration(),T); eq("clone stays",c->Pos(t),f); delete c; }
VX_CASE(composite){ int base=ALIVE; { Trajectory_Composite C; eq("empty duration",C.Duration(),0); if(vx::flip("used before")){ int m=1+vx::choose("earlier parts",2); for(int i=0;i<m;i++) C.Add(new MTraj(i,pos(idx("old",i)))); if(vx::flip("queried")) C.Pos(1); C.Destroy(); vx::check("cleared parts released",ALIVE==base); eq("cleared duration",C.Duration(),0); }
  int n=1+vx::choose("parts",3); double D[3],E[3],tot=0; for(int i=0;i<n;i++){ D[i]=vx::flip(idx("instant",i))?0.0:pos(idx("D",i)); tot=tot+D[i]; E[i]=tot; C.Add(new MTraj(20+i,D[i])); } eq("duration",C.Duration(),tot);
  double t; int at=vx::choose("at",n+3); if(at==0) t=0; else if(at<=n) t=E[at-1]; else if(at==n+1) t=-1; else t=vx::real_s("t",-1,6); int k=0; double x; if(t<0){ x=0; } else { double st=0; while(k<n&&!(t<E[k])){ st=E[k]; k++; } if(k==n){ k=n-1; x=D[k]; } else x=t-st; } MTraj r(20+k,D[k]); eq("pose",C.Pos(t),r.Pos(x)); eq("velocity",C.Vel(t),r.Vel(x)); eq("acceleration",C.Acc(t),r.Acc(x)); vx::reach("end"); } vx::check("everything released",ALIVE==base); }
VX_CASE(nested){ double a=pos("a"),b=pos("b"),c=pos("c"); Trajectory_Composite*I=new Trajectory_Composite; I->Add(new MTraj(1,a)); I->Add(new MTraj(2,b)); Trajectory_Composite C; C.Add(new MTraj(0,c)); C.Add(I); eq("duration",C.Duration(),a+b+c); double t=vx::real_s("t",0,5); vx::assume_le(0,t); vx::assume_ne(t,c); vx::assume_ne(t,c+a); if(t<c){ MTraj r(0,c); eq("first",C.Pos(t),r.Pos(t)); } else if(t<c+a){ MTraj r(1,a); eq("second",C.Pos(t),r.Pos(t-c)); } else if(t<c+a+b){ MTraj r(2,b); eq("third",C.Pos(t),r.Pos(t-c-a)); } else { MTraj r(2,b); eq("held",C.Pos(t),r.Pos(b)); } }
