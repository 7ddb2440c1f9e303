// SRC: frames utilities/utility
#include "kx.h"
using namespace KDL; using namespace kx;
VX_CASE(elementary){
  double a=vx::real("a"); eq("RotX",Rotation::RotX(a),rotx(a)); eq("RotY",Rotation::RotY(a),roty(a)); eq("RotZ",Rotation::RotZ(a),rotz(a));
  Rotation R=skmat("R"); Rotation x=R,y=R,z=R; x.DoRotX(a); y.DoRotY(a); z.DoRotZ(a);
  eq("DoRotX",x,mul(of(R),rotx(a))); eq("DoRotY",y,mul(of(R),roty(a))); eq("DoRotZ",z,mul(of(R),rotz(a)));
}
VX_CASE(angles){
  double a=vx::real("a"),b=vx::real("b"),c=vx::real("c");
  eq("RPY",Rotation::RPY(a,b,c),mul(rotz(c),mul(roty(b),rotx(a))));
  eq("EulerZYX",Rotation::EulerZYX(a,b,c),mul(rotz(a),mul(roty(b),rotx(c))));
  eq("EulerZYZ",Rotation::EulerZYZ(a,b,c),mul(rotz(a),mul(roty(b),rotz(c))));
}
VX_CASE(quaternion){
  // every unit quaternion: w=cos(h), (x,y,z)=sin(h)*u
  double h=vx::real("h"); V3 u=sunit("u"); double w=cos(h),s=sin(h);
  eq("Quaternion",Rotation::Quaternion(s*u[0],s*u[1],s*u[2],w),axang(u,2*h));
}
VX_CASE(axis_angle){
  double a=vx::real("a"); V3 u=sunit("u"); double L=vx::real("L"); vx::assume_lt(2e-6,L);
  eq("Rot2(unit)",Rotation::Rot2(kv(u),a),axang(u,a));
  eq("Rot(L*unit)",Rotation::Rot(kv(L*u),a),axang(u,a));
}
VX_CASE(zero_axis){
  double a=vx::real("a"); eq("Rot(0,a)",Rotation::Rot(Vector(0,0,0),a),eye()); eq("Rot(0,a) zero()",Rotation::Rot(Vector::Zero(),a),eye());
}
VX_CASE(DH){
  double a=vx::real("a"),al=vx::real("alpha"),d=vx::real("d"),th=vx::real("theta");
  // DH: Rz(theta) Tz(d) Tx(a) Rx(alpha)
  M3 M=mul(rotz(th),rotx(al)); Frame F=Frame::DH(a,al,d,th); eq("DH.M",F.M,M); eq("DH.p",of(F.p),mul(rotz(th),v3(a,0,0))+v3(0,0,d));
  // Craig: Rx(alpha) Tx(a) Rz(theta) Tz(d)
  M3 C=mul(rotx(al),rotz(th)); Frame G=Frame::DH_Craig1989(a,al,d,th); eq("Craig.M",G.M,C); eq("Craig.p",of(G.p),v3(a,0,0)+mul(rotx(al),v3(0,0,d)));
}
