// SRC: frames utilities/utility
#include "kx.h"
using namespace KDL; using namespace kx;
static const double PIh=1.5707963267948966, PIc=3.141592653589793;
static void rng(const string&l,double x,double lo,double hi){ vx::check_le(l+" lower",lo,x); vx::check_le(l+" upper",x,hi); }
// every proper rotation outside gimbal lock, |pitch| <= 1.5707
static Rotation generic_rpy(){ double a=vx::real("yaw"),b=vx::range("pitch",-1.5707,1.5707),c=vx::real("roll"); vx::assume_lt(1e-5,cos(b)); return kr(mul(rotz(a),mul(roty(b),rotx(c)))); }
VX_CASE(rpy_generic){ Rotation R=generic_rpy(); double r,p,y; R.GetRPY(r,p,y); eq("RPY(GetRPY)",Rotation::RPY(r,p,y),R,1e-5); rng("pitch",p,-PIh,PIh); rng("roll",r,-PIc,PIc); rng("yaw",y,-PIc,PIc); vx::reach("end"); }
VX_CASE(zyx_generic){ Rotation R=generic_rpy(); double a,b,g; R.GetEulerZYX(a,b,g); eq("EulerZYX(GetEulerZYX)",Rotation::EulerZYX(a,b,g),R,1e-5); rng("beta",b,-PIh,PIh); rng("alpha",a,-PIc,PIc); rng("gamma",g,-PIc,PIc); }
// exactly at gimbal lock: pitch = +-pi/2
VX_CASE(rpy_lock){ double a=vx::real("yaw"),c=vx::real("roll"); double s=vx::flip("up")?1:-1; M3 P={{{0,0,s},{0,1,0},{-s,0,0}}}; Rotation R=kr(mul(rotz(a),mul(P,rotx(c)))); double r,p,y; R.GetRPY(r,p,y); eq("RPY(GetRPY) lock",Rotation::RPY(r,p,y),R,1e-5); double b; R.GetEulerZYX(y,b,r); eq("EulerZYX lock",Rotation::EulerZYX(y,b,r),R,1e-5); rng("pitch",p,-PIh,PIh); rng("yaw",y,-PIc,PIc); rng("roll",r,-PIc,PIc); }
VX_CASE(zyz_generic){ double a=vx::real("alpha"),b=vx::range("beta",0.00001,3.14158),c=vx::real("gamma"); vx::assume_lt(1e-5,sin(b)); Rotation R=kr(mul(rotz(a),mul(roty(b),rotz(c)))); double A,B,C; R.GetEulerZYZ(A,B,C); eq("EulerZYZ(GetEulerZYZ)",Rotation::EulerZYZ(A,B,C),R,1e-4); rng("beta",B,0,PIc); rng("alpha",A,-PIc,PIc); rng("gamma",C,-PIc,PIc); }
VX_CASE(zyz_lock){ double a=vx::real("a"); bool up=vx::flip("up"); M3 F={{{-1,0,0},{0,1,0},{0,0,-1}}}; M3 m=up?rotz(a):mul(rotz(a),F); Rotation R=kr(m); double A,B,C; R.GetEulerZYZ(A,B,C); eq("EulerZYZ lock",Rotation::EulerZYZ(A,B,C),R,1e-5); eq("gamma chosen zero",C,0.0); rng("beta",B,0,PIc); rng("alpha",A,-PIc,PIc); }
// every proper rotation via a unit quaternion (the double cover), all four extraction branches
VX_CASE(quaternion){ double h=vx::real("h"); V3 u=sunit("u"); double s=sin(h); Rotation R=kr(axang(u,2*h)); double x,y,z,w; R.GetQuaternion(x,y,z,w);
  eq("Quaternion(GetQuaternion)",Rotation::Quaternion(x,y,z,w),R,1e-5); eq("unit norm",x*x+y*y+z*z+w*w,1.0); vx::reach("end"); }
VX_CASE(quaternion_halfturn){ V3 u=sunit("u"); M3 m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m.m[i][j]=2*u[i]*u[j]-(i==j); Rotation R=kr(m); double x,y,z,w; R.GetQuaternion(x,y,z,w); eq("Quaternion(GetQuaternion) half-turn",Rotation::Quaternion(x,y,z,w),R,1e-5); eq("unit norm",x*x+y*y+z*z+w*w,1.0); }
