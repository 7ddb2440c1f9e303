// SRC: trajectory_segment trajectory_composite trajectory_stationary path_line path_circle path_point path_composite path_cyclic_closed path_roundedcomposite velocityprofile_trap velocityprofile_traphalf velocityprofile_rect velocityprofile_dirac velocityprofile_spline frames utilities/utility utilities/error_stack rotational_interpolation_sa
// BOUNDS: every profile class with every plan and query time, limits changed after planning; every path class with symbolic geometry; trajectories over any path and profile; composites of up to two parts, the same part twice in a row included; single-axis interpolations by any angle below a half turn; originals deleted before their clones are asked
#include "mock.h"
#include <path_line.hpp>
#include <path_circle.hpp>
#include <path_point.hpp>
#include <path_composite.hpp>
#include <path_cyclic_closed.hpp>
#include <path_roundedcomposite.hpp>
#include <velocityprofile_trap.hpp>
#include <velocityprofile_traphalf.hpp>
#include <velocityprofile_rect.hpp>
#include <velocityprofile_dirac.hpp>
#include <velocityprofile_spline.hpp>
#include <trajectory_segment.hpp>
#include <trajectory_composite.hpp>
#include <trajectory_stationary.hpp>
#include <utilities/error.h>
#include <rotational_interpolation_sa.hpp>
using namespace KDL; using namespace kx;
static double pos(const string&n,double lo=0.1,double hi=5){ double x=vx::real_s(n,lo,hi); vx::assume_lt(0,x); return x; }
// asks the original, deletes it, asks the clone
static void profile(VelocityProfile*p,bool acc,bool vel=true){ double t=vx::real_s("t",-1,9); double d=p->Duration(),x=p->Pos(t),v=vel?p->Vel(t):0,a=acc?p->Acc(t):0; VelocityProfile*c=p->Clone(); if(vx::flip("original reused")){ p->SetProfileDuration(-7,9,11); } else { delete p; p=0; } eq("duration",c->Duration(),d); eq("position",c->Pos(t),x); if(vel) eq("velocity",c->Vel(t),v); if(acc) eq("acceleration",c->Acc(t),a); delete c; delete p; vx::reach("end"); }
VX_CASE(trapezoid){ double s=vx::real("start"),e=vx::real("goal"),V=pos("V"),A=pos("A"); vx::assume_ne(s,e); auto p=new VelocityProfile_Trap(V,A); int k=vx::choose("plan",4); if(k==1) p->SetProfile(s,e); if(k==2) p->SetProfileDuration(s,e,pos("T",5,30)); if(k==3) p->SetProfileVelocity(s,e,0.5); if(vx::flip("limits changed later")) p->SetMax(100,2); profile(p,true); }
VX_CASE(half_trapezoid){ double s=vx::real("start"),e=vx::real("goal"),V=pos("V"),A=pos("A"); vx::assume_ne(s,e); bool st=vx::flip("starting"); auto p=new VelocityProfile_TrapHalf(V,A,st); int k=vx::choose("plan",3); if(k==1) p->SetProfile(s,e); if(k==2) p->SetProfileDuration(s,e,pos("T",5,30)); if(vx::flip("limits changed later")) p->SetMax(100,2,!st); profile(p,true); }
VX_CASE(rectangle){ double s=vx::real("start"),e=vx::real("goal"),V=pos("V"); auto p=new VelocityProfile_Rectangular(V); int k=vx::choose("plan",2); if(k==0) p->SetProfile(s,e); if(k==1) p->SetProfileDuration(s,e,pos("T",5,30)); if(vx::flip("limits changed later")) p->SetMax(0.01); profile(p,false); }
VX_CASE(step){ auto p=new VelocityProfile_Dirac; double s=vx::real("start"),e=vx::real("goal"); int k=vx::choose("plan",2); if(k==0) p->SetProfile(s,e); else p->SetProfileDuration(s,e,pos("T")); profile(p,false,false); }
VX_CASE(spline){ auto p=new VelocityProfile_Spline; int k=vx::choose("plan",4); double a=vx::real("p1"),b=vx::real("p2"),T=pos("T"); vx::assume_lt(1e-3,T); if(k==1) p->SetProfileDuration(a,b,T); if(k==2) p->SetProfileDuration(a,vx::real("v1"),b,vx::real("v2"),T); if(k==3) p->SetProfileDuration(a,vx::real("v1"),vx::real("a1"),b,vx::real("v2"),vx::real("a2"),T); profile(p,true); }
static void path(Path*p,double lo,double hi,int released){ double s=vx::real_s("s",lo,hi),sd=vx::real("sd"),sdd=vx::real("sdd"); vx::assume_le(lo,s); double L=p->PathLength(); vx::assume_le(s,L); Frame f=p->Pos(s); Twist v=p->Vel(s,sd),a=p->Acc(s,sd,sdd); Frame f0=p->Pos(0),f1=p->Pos(L); Path::IdentifierType id=p->getIdentifier(); Path*c=p->Clone(); delete p; vx::check("same kind",c->getIdentifier()==id); eq("length",c->PathLength(),L,1e-5); eq("pose",c->Pos(s),f,1e-4); eq("velocity",c->Vel(s,sd),v,1e-3); eq("acceleration",c->Acc(s,sd,sdd),a,1e-2); eq("start",c->Pos(0),f0,1e-4); eq("end",c->Pos(c->PathLength()),f1,1e-4); delete c; vx::check("everything released",ALIVE==released); vx::reach("end"); }
static double angle(){ return vx::flip("no rotation")?0.0:pos("alpha",0.05,3); }
VX_CASE(line){ int b=ALIVE; double al=angle(); V3 d=v3(0,0,0); int k=vx::choose("displacement",3); if(k==1) d=sv("d"); if(k==2) d=v3(0,0,vx::real("dz")); if(k) vx::assume_lt(1e-8,dot(d,d)); V3 a=sv("a"); path(new Path_Line(Frame(kr(rotx(vx::real("o"))),kv(a)),Frame(kv(a+d)),new MInterp(al),pos("eqradius")),0,3,b); }
VX_CASE(line_twist){ int b=ALIVE; V3 d=v3(0,vx::real("dy"),0); vx::assume_lt(1e-4,dot(d,d)); path(new Path_Line(Frame(kr(rotx(vx::real("o"))),kv(sv("a"))),Twist(kv(d),Vector(0,0,vx::flip("turn")?0.5:0)),new MInterp(angle()),pos("eqradius")),0,3,b); }
VX_CASE(line_shared){ MInterp I(angle()); int b=ALIVE; V3 d=v3(0,vx::real("dy"),0); vx::assume_lt(1e-4,dot(d,d)); path(new Path_Line(Frame(kv(sv("a"))),Frame(kv(d)+kv(v3(0,0,0))),&I,pos("eqradius"),false),0,3,b); }
static Path* circle(double R,double al){ V3 c=sv("centre"); int pl=vx::choose("plane",3); M3 B=eye(); if(pl){ double g=vx::real("plane angle"); B=pl==1?rotx(g):roty(g); } V3 x=mul(B,v3(1,0,0)),y=mul(B,v3(0,1,0)); double w=pos("sweep",0.1,6); return new Path_Circle(Frame(kr(rotx(0.5)),kv(c+R*x)),kv(c),kv(c+0.5*x+(vx::flip("other side")?-2:1)*y),Rotation::Identity(),w,new MInterp(al),pos("eqradius")); }
VX_CASE(circle){ int b=ALIVE; double R=pos("radius"); vx::assume_lt(1e-3,R); path(circle(R,angle()),0,3,b); }
VX_CASE(point){ path(new Path_Point(sframe("f")),0,0,0); }
VX_CASE(composite){ int b=ALIVE; auto C=new Path_Composite; double L=pos("L"),M=pos("M"); C->Add(new MPath(1,L)); C->Add(new MPath(2,M)); vx::flip("asked before")?C->Pos(L+M):Frame(); path(C,0,3,b); }
VX_CASE(composite_repeated){ double L=pos("L"),M=pos("M"); int n=2+vx::choose("repeats",2),at=vx::choose("other part",4); Path*a=new MPath(1,L),*o=new MPath(2,M); auto C=new Path_Composite; double T=0; for(int i=0;i<n;i++){ if(i==at){ C->Add(o,false); T=T+M; } C->Add(a,false); T=T+L; } double s=vx::real_s("s",0,9),sd=vx::real("sd"),sdd=vx::real("sdd"); vx::assume_le(0,s); vx::assume_le(s,T); Frame f=C->Pos(s),f1=C->Pos(T); Twist v=C->Vel(s,sd),w=C->Acc(s,sd,sdd); Path*c=C->Clone(); delete C; delete a; delete o; eq("length",c->PathLength(),T,1e-5); eq("pose",c->Pos(s),f,1e-4); eq("velocity",c->Vel(s,sd),v,1e-3); eq("acceleration",c->Acc(s,sd,sdd),w,1e-2); eq("end",c->Pos(c->PathLength()),f1,1e-4); delete c; vx::reach("end"); }
VX_CASE(cyclic){ int b=ALIVE; path(new Path_Cyclic_Closed(new MPath(1,pos("L")),2),0,3,b); }
// rounded: interpolation between any two orientations, of unit angle
struct LInterp:RotationalInterpolation{ Rotation s,e; LInterp(){ ALIVE++; } ~LInterp(){ ALIVE--; } void SetStartEnd(Rotation a,Rotation b){ s=a; e=b; } double Angle(){ return 1; } Rotation Pos(double t)const{ Rotation r; for(int i=0;i<9;i++) r.data[i]=s.data[i]+t*(e.data[i]-s.data[i]); return r; } Vector Vel(double t,double d)const{ return Vector(0,0,d); } Vector Acc(double t,double d,double dd)const{ return Vector(0,0,dd); } void Write(std::ostream&)const{} RotationalInterpolation*Clone()const{ LInterp*c=new LInterp; c->s=s; c->e=e; return c; } };
VX_CASE(rounded){ int b=ALIVE; auto P=new Path_RoundedComposite(0.25,1e-5,new LInterp); double x=pos("x",1,4),y=pos("y",1,4); vx::assume_lt(0.5,x); vx::assume_lt(0.5,y); P->Add(Frame(Vector(0,0,0))); P->Add(Frame(Vector(x,0,0))); P->Add(Frame(Vector(x,y,0))); bool fin=vx::flip("finished"); if(fin) P->Finish(); Path*q=P; if(!fin){ Path_RoundedComposite*c=static_cast<Path_RoundedComposite*>(P->Clone()); vx::check("same number of parts",c->GetNrOfSegments()==P->GetNrOfSegments()); eq("length so far",c->PathLength(),P->PathLength(),1e-5); delete P; delete c; vx::check("everything released",ALIVE==b); return; } path(q,0,3,b); }
VX_CASE(interpolation){ auto p=new RotationalInterpolation_SingleAxis; V3 u=v3(0,0,0); u[vx::choose("axis",3)]=1; double t=vx::range("angle",1e-4,3.1415); vx::assume_lt(5e-5,sin(t)); M3 A=rotx(vx::real("start")); p->SetStartEnd(kr(A),kr(mul(A,axang(u,t)))); double th=vx::real("theta"),d=vx::real("thetad"),dd=vx::real("thetadd"); double a=p->Angle(); Rotation R=p->Pos(th); Vector v=p->Vel(th,d),w=p->Acc(th,d,dd); RotationalInterpolation*c=p->Clone(); if(vx::flip("original reused")) p->SetStartEnd(Rotation::Identity(),Rotation::RotX(1)); delete p; eq("angle",c->Angle(),a); eq("orientation",of(c->Pos(th)),of(R)); eq("velocity",of(c->Vel(th,d)),of(v)); eq("acceleration",of(c->Acc(th,d,dd)),of(w)); delete c; vx::reach("end"); }
static void traj(Trajectory*p,int released){ double t=vx::real_s("t",-1,9); double d=p->Duration(); Frame f=p->Pos(t); Twist v=p->Vel(t),a=p->Acc(t); Trajectory*c=p->Clone(); delete p; eq("duration",c->Duration(),d); eq("pose",c->Pos(t),f); eq("velocity",c->Vel(t),v); eq("acceleration",c->Acc(t),a); delete c; vx::check("everything released",ALIVE==released); vx::reach("end"); }
VX_CASE(segment){ int b=ALIVE; traj(new Trajectory_Segment(new MPath(4,pos("L")),new MProf(vx::real("a"),vx::real("b"),vx::real("c"),pos("D"))),b); }
VX_CASE(segment_planned){ int b=ALIVE; auto p=new VelocityProfile_Trap(pos("V"),2); double L=pos("L"); traj(new Trajectory_Segment(new MPath(4,L),p,pos("T")),b); }
VX_CASE(segment_shared){ MPath g(4,pos("L")); MProf m(vx::real("a"),vx::real("b"),vx::real("c"),pos("D")); int b=ALIVE; traj(new Trajectory_Segment(&g,&m,false),b); }
VX_CASE(trajectory_composite){ int b=ALIVE; auto C=new Trajectory_Composite; C->Add(new MTraj(1,pos("a"))); if(vx::flip("two")) C->Add(new MTraj(2,pos("b"))); traj(C,b); }
VX_CASE(stationary){ traj(new Trajectory_Stationary(vx::real("T"),sframe("f")),0); }
