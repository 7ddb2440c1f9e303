// SRC: velocityprofile_rect velocityprofile_dirac velocityprofile_spline frames utilities/utility
// BOUNDS: every start, goal, boundary velocity and acceleration, positive velocity limit, duration (zero, positive; for the rectangular profile also negative) and query time, replanning the same object
#include "kx.h"
#include <velocityprofile_rect.hpp>
#include <velocityprofile_dirac.hpp>
#include <velocityprofile_spline.hpp>
using namespace KDL; using namespace kx;
static double pos(const string&n,double lo=0.1,double hi=5){ double x=vx::real_s(n,lo,hi); vx::assume_lt(0,x); return x; }
VX_CASE(rectangular){ double s=vx::real("start"),e=vx::real("goal"),V=pos("maxvel"),T; VelocityProfile_Rectangular P(vx::flip("SetMax")?99:V); P.SetMax(V); if(vx::flip("used before")){ if(vx::flip("how")) P.SetProfile(3,-4); else P.SetProfileDuration(3,9,100); } double D=fabs(e-s),f=D/V; int k=vx::choose("how",4); if(k==0){ P.SetProfile(s,e); T=f; } else { double r=k==1?0.0:vx::real_s("T",0.1,9); if(k==3) vx::assume_lt(r,0); if(k==2) vx::assume_lt(0,r); P.SetProfileDuration(s,e,r); if(k==3&&D==0) return; T=r>f?r:f; } eq("duration",P.Duration(),T,1e-5);
  double t=vx::real_s("t",-1,9); double p,v; if(t<0){ p=s; v=0; } else if(t>T){ p=e; v=0; } else { p=T==0?s:s+(e-s)*t/T; v=T==0?0:(e-s)/T; } eq("position",P.Pos(t),p,1e-5); eq("velocity",P.Vel(t),v,1e-5); double pv=P.Vel(t); vx::check_le("velocity limit",pv,V); vx::check_le("velocity limit backwards",-V,pv); if(vx::is_sym(t)&&t>0&&t<T){ double x=P.Pos(t); if(vx::is_sym(x)){ double d=vx::diff(x,t); eq("velocity is the derivative",pv,d,1e-3); } } eq("starts at the start",P.Pos(0),s,1e-5); eq("ends at the goal",P.Pos(P.Duration()),e,1e-5); eq("before",P.Pos(-1),s,1e-5); eq("after",P.Pos(P.Duration()+1),e,1e-5); eq("rest before",P.Vel(-1),0); eq("rest after",P.Vel(P.Duration()+1),0); vx::reach("end"); }
VX_CASE(step){ VelocityProfile_Dirac P; if(vx::flip("used before")) P.SetProfileDuration(4,5,6); double s=vx::real("start"),e=vx::real("goal"),t=vx::real("t"); int k=vx::choose("how",3); double T=0; if(k==0) P.SetProfile(s,e); if(k==1) P.SetProfileDuration(s,e,0); if(k==2){ T=pos("T"); P.SetProfileDuration(s,e,T); } eq("duration",P.Duration(),T); double p=T==0?(t<=0?s:e):t<0?s:t>T?e:s+(e-s)*t/T; eq("position",P.Pos(t),p,1e-5); if(T!=0&&t!=0&&t!=T){ double v=P.Vel(t); eq("velocity",v,t<0||t>T?0.0:(e-s)/T,1e-5); } if(T!=0){ eq("starts at the start",P.Pos(0),s); eq("ends at the goal",P.Pos(T),e,1e-5); } }
VX_CASE(spline){ VelocityProfile_Spline P; if(vx::flip("used before")) P.SetProfileDuration(1,2,3,4,5,6,7); double p1=vx::real("p1"),p2=vx::real("p2"),v1=vx::real("v1"),v2=vx::real("v2"),a1=vx::real("a1"),a2=vx::real("a2"),T=vx::real_s("T",0.1,5); vx::assume_lt(1e-3,T); int k=vx::choose("order",3); if(k==0) P.SetProfileDuration(p1,p2,T); if(k==1) P.SetProfileDuration(p1,v1,p2,v2,T); if(k==2) P.SetProfileDuration(p1,v1,a1,p2,v2,a2,T); eq("duration",P.Duration(),T); eq("start",P.Pos(0),p1); eq("goal",P.Pos(T),p2,1e-5); if(k>=1){ eq("start velocity",P.Vel(0),v1); eq("goal velocity",P.Vel(T),v2,1e-4); } if(k==2){ eq("start acceleration",P.Acc(0),a1,1e-4); eq("goal acceleration",P.Acc(T),a2,1e-3); }
  double t=vx::real("t"); double x=P.Pos(t),v=P.Vel(t); double d=vx::diff(x,t); eq("velocity is the derivative",v,d,1e-3); double dd=vx::diff2(x,t); eq("acceleration is the derivative",P.Acc(t),dd,1e-2); if(k==0){ eq("linear",x,p1+(p2-p1)*t/T,1e-5); } if(k==1&&vx::is_sym(v)){ double d4=vx::diff2(v,t); double t2=vx::real("t2"); double d5=vx::diff2(P.Vel(t2),t2); eq("cubic",d4,d5,1e-1); } }
VX_CASE(spline_no_time){ VelocityProfile_Spline P; double p=vx::real("p1"),T=vx::flip("zero")?0.0:-1.0; int k=vx::choose("order",3); double v=vx::real("v"),a=vx::real("a"); if(k==0) P.SetProfileDuration(p,p,T); if(k==1) P.SetProfileDuration(7,8,p,v,T); if(k==2) P.SetProfileDuration(7,8,9,p,v,a,T); eq("goal at once",P.Pos(0),p); if(k) eq("goal velocity at once",P.Vel(0),v); if(k==2) eq("goal acceleration at once",P.Acc(0),a); }
VX_CASE(spline_default){ VelocityProfile_Spline P; double t=vx::real("t"); eq("zero",P.Pos(t),0); eq("zero",P.Vel(t),0); eq("zero",P.Acc(t),0); eq("zero",P.Duration(),0); }
