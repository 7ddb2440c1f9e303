// SRC: rotational_interpolation_sa rotational_interpolation frames frames_io utilities/utility
// BOUNDS: every start rotation and every relative rotation by an angle in (1e-4, pi-1e-4) about any axis, half-turns and no rotation; every angle and rates in between
#include "mot.h"
#include <rotational_interpolation_sa.hpp>
using namespace KDL; using namespace kx;
static void judge(const M3&A,const M3&E,const Rotation&a,const Rotation&e,double want,V3 axis,bool known){ RotationalInterpolation_SingleAxis I; if(vx::flip("used before")) I.SetStartEnd(Rotation::RotX(1),Rotation::RotY(1)); I.SetStartEnd(a,e); double al=I.Angle(); vx::check_le("angle not negative",0,al); vx::check_le("angle at most pi",al,3.141592653589794); eq("starts at the start",I.Pos(0),A,1e-6); eq("ends at the end",I.Pos(al),E,1e-5); if(known){ eq("angle",cos(al),cos(want)); eq("angle",sin(al),sin(want)); }
  double t=vx::real("th"),d=vx::real("thd"),dd=vx::real("thdd"); V3 w=of(I.Vel(t,d)); V3 ax=of(I.Vel(0,1)); eq("fixed axis",w,d*ax); eq("unit axis",dot(ax,ax),1.0,1e-5); eq("angular acceleration",of(I.Acc(t,d,dd)),dd*ax); if(known) eq("axis",ax,mul(A,axis),1e-5); eq("one axis all the way",I.Pos(t),mul(axang(ax,t),A),1e-5); vx::reach("end"); }
VX_CASE(generic){ V3 u=sunit("u"); double t=vx::range("t",1e-4,3.1415); vx::assume_lt(5e-5,sin(t)); double s=vx::real("start"); int k=vx::choose("start axis",3); M3 A=k==0?rotx(s):k==1?roty(s):rotz(s); M3 E=mul(A,axang(u,t)); judge(A,E,kr(A),kr(E),t,u,true); }
VX_CASE(any_start){ M3 A=srot("A"); V3 u=v3(0,0,0); u[vx::choose("axis",3)]=1; double t=vx::range("t",1e-4,3.1415); vx::assume_lt(5e-5,sin(t)); M3 E=mul(A,axang(u,t)); judge(A,E,kr(A),kr(E),t,u,true); }
VX_CASE(half_turn){ M3 A=rotx(vx::real("start")); V3 u=v3(0,0,0); int k=vx::choose("plane",3); double h=vx::real("h"); u[(k+1)%3]=cos(h); u[(k+2)%3]=sin(h); M3 m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m.m[i][j]=2*u[i]*u[j]-(i==j); M3 E=mul(A,m); judge(A,E,kr(A),kr(E),3.141592653589793,u,false); }
VX_CASE(none){ M3 A=srot("A"); judge(A,A,kr(A),kr(A),0,v3(0,0,1),false); }
