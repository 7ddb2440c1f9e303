// SRC: frames utilities/utility framevel
#include "mot.h"
#include <framevel.hpp>
using namespace KDL; using namespace kx;
struct H:Mot{
  VectorVel vv(const string&n){ MV a=vec1(n); return VectorVel(kv(a.p),kv(a.v)); } RotationVel rv(const string&n){ MR a=rot1(n); return RotationVel(kr(a.R),kv(a.w)); } FrameVel fv(const string&n){ return FrameVel(rv(n+".M"),vv(n+".p")); } TwistVel tv(const string&n){ return TwistVel(vv(n+".v"),vv(n+".w")); } doubleVel dv(const string&n){ Q a=var1(n); return doubleVel(a.q,a.d); }
  void ck(const string&l,const VectorVel&r,const Vector&val){ eq(l+" value",r.p,val); eq(l+" velocity",of(r.v),D(of(val))); }
  void ck(const string&l,const RotationVel&r,const Rotation&val){ eq(l+" value",r.R,val); eq(l+" velocity",mul(skew(of(r.w)),of(val)),D(of(val))); }
  void ck(const string&l,const FrameVel&r,const Frame&val){ ck(l+" M",r.M,val.M); ck(l+" p",r.p,val.p); }
  void ck(const string&l,const TwistVel&r,const Twist&val){ ck(l+" vel",r.vel,val.vel); ck(l+" rot",r.rot,val.rot); }
  void ck(const string&l,const doubleVel&r,double val){ eq(l+" value",r.t,val); eq(l+" velocity",r.grad,D(val)); }
};
VX_CASE(vector_linear){ H h; VectorVel a=h.vv("a"),b=h.vv("b"); Vector c=svec("c"); double k=vx::real("k"); vx::assume_ne(k,0); doubleVel d=h.dv("d");
  h.ck("a+b",a+b,a.p+b.p); h.ck("a-b",a-b,a.p-b.p); h.ck("a+c",a+c,a.p+c); h.ck("c+a",c+a,c+a.p); h.ck("a-c",a-c,a.p-c); h.ck("c-a",c-a,c-a.p); h.ck("-a",-a,-a.p);
  VectorVel e=a; e+=b; h.ck("+=",e,a.p+b.p); e=a; e-=b; h.ck("-=",e,a.p-b.p); e=a; e.ReverseSign(); h.ck("Rev",e,-a.p); e=a; e+=e; h.ck("self+=",e,a.p+a.p); e=c; h.ck("=Vector",e,c); h.ck("ctor(Vector)",VectorVel(c),c); h.ck("Zero",VectorVel::Zero(),Vector::Zero()); e=a; SetToZero(e); h.ck("SetToZero",e,Vector::Zero());
  h.ck("a*k",a*k,a.p*k); h.ck("k*a",k*a,k*a.p); h.ck("a/k",a/k,a.p/k); h.ck("d*a",d*a,d.t*a.p); h.ck("a*d",a*d,a.p*d.t); }
VX_CASE(vector_div){ H h; VectorVel a=h.vv("a"); doubleVel d=h.dv("d"); vx::assume_ne(d.t,0); h.ck("a/d",a/d,a.p/d.t); }
VX_CASE(vector_products){ H h; VectorVel a=h.vv("a"),b=h.vv("b"); Vector c=svec("c"); Rotation R=skrot("R");
  h.ck("axb",a*b,a.p*b.p); h.ck("axc",a*c,a.p*c); h.ck("cxa",c*a,c*a.p); h.ck("dot",dot(a,b),KDL::dot(a.p,b.p)); h.ck("dot c",dot(a,c),KDL::dot(a.p,c)); h.ck("c dot",dot(c,a),KDL::dot(c,a.p)); h.ck("R*a",R*a,R*a.p); VectorVel e=a; e=e*b; h.ck("a=a*b",e,a.p*b.p); }
VX_CASE(vector_norm){ H h; VectorVel a=h.vv("a"); vx::assume_lt(1e-9,dot(of(a.p),of(a.p))); doubleVel n=a.Norm(); eq("norm value",n.t*n.t,dot(of(a.p),of(a.p))); eq("norm velocity",n.t*n.grad,dot(of(a.p),of(a.v))); }
VX_CASE(rotation_products){ H h; RotationVel R=h.rv("R"),S=h.rv("S"); Rotation C=skrot("C"); 
  h.ck("input",R,R.R); h.ck("R*S",R*S,R.R*S.R); h.ck("C*R",C*R,C*R.R); h.ck("R*C",R*C,R.R*C); h.ck("R^-1",R.Inverse(),R.R.Inverse()); RotationVel T=R; T=T*S; h.ck("R=R*S",T,R.R*S.R); T=C; h.ck("=Rotation",T,C); h.ck("ctor(R)",RotationVel(C),C); h.ck("Identity",RotationVel::Identity(),Rotation::Identity()); h.ck("default",RotationVel(),Rotation::Identity()); }
VX_CASE(rotation_action){ H h; RotationVel R=h.rv("R"); VectorVel a=h.vv("a"); Vector c=svec("c"); h.ck("R*a",R*a,R.R*a.p); h.ck("R*c",R*c,R.R*c); h.ck("R^-1 a",R.Inverse(a),R.R.Inverse(a.p)); h.ck("R^-1 c",R.Inverse(c),R.R.Inverse(c)); h.ck("UnitX",R.UnitX(),R.R.UnitX()); h.ck("UnitY",R.UnitY(),R.R.UnitY()); h.ck("UnitZ",R.UnitZ(),R.R.UnitZ());
  TwistVel t=h.tv("t"); Twist u=stwist("u"); h.ck("R*t",R*t,R.R*t.value()); h.ck("R*u",R*u,R.R*u); h.ck("R^-1 t",R.Inverse(t),R.R.Inverse(t.value())); h.ck("R^-1 u",R.Inverse(u),R.R.Inverse(u)); }
VX_CASE(rotation_builders){ H h; doubleVel a=h.dv("a"); V3 u=sunit("u"); h.ck("RotX",RotationVel::RotX(a),Rotation::RotX(a.t)); h.ck("RotY",RotationVel::RotY(a),Rotation::RotY(a.t)); h.ck("RotZ",RotationVel::RotZ(a),Rotation::RotZ(a.t)); h.ck("Rot2",RotationVel::Rot2(kv(u),a),kr(axang(u,a.t)));
  RotationVel R=h.rv("R"),x=R,y=R,z=R; x.DoRotX(a); y.DoRotY(a); z.DoRotZ(a); h.ck("DoRotX",x,R.R*Rotation::RotX(a.t)); h.ck("DoRotY",y,R.R*Rotation::RotY(a.t)); h.ck("DoRotZ",z,R.R*Rotation::RotZ(a.t)); }
VX_CASE(rotation_axis){ H h; doubleVel a=h.dv("a"); V3 u=sunit("u"); double L=vx::real("L"); vx::assume_lt(2e-6,L); h.ck("Rot",RotationVel::Rot(kv(L*u),a),kr(axang(u,a.t))); }
VX_CASE(frame_products){ H h; FrameVel F=h.fv("F"),G=h.fv("G"); Frame C=sframe("C"); h.ck("F*G",F*G,F.GetFrame()*G.GetFrame()); h.ck("C*F",C*F,C*F.GetFrame()); h.ck("F*C",F*C,F.GetFrame()*C); h.ck("F^-1",F.Inverse(),F.GetFrame().Inverse()); FrameVel T=F; T=T*G; h.ck("F=F*G",T,F.GetFrame()*G.GetFrame()); T=C; h.ck("=Frame",T,C); h.ck("ctor(F)",FrameVel(C),C); h.ck("Identity",FrameVel::Identity(),Frame::Identity()); h.ck("default",FrameVel(),Frame::Identity());
  eq("GetTwist vel",F.GetTwist().vel,F.p.v); eq("GetTwist rot",F.GetTwist().rot,F.M.w); FrameVel K(F.GetFrame(),F.GetTwist()); h.ck("ctor(frame,twist)",K,F.GetFrame()); }
VX_CASE(frame_action){ H h; FrameVel F=h.fv("F"); VectorVel a=h.vv("a"); Vector c=svec("c"); Frame f=F.GetFrame(); h.ck("F*a",F*a,f*a.p); h.ck("F*c",F*c,f*c); h.ck("F^-1 a",F.Inverse(a),f.Inverse(a.p)); h.ck("F^-1 c",F.Inverse(c),f.Inverse(c)); }
VX_CASE(frame_twist){ H h; FrameVel F=h.fv("F"); Frame f=F.GetFrame(); TwistVel t=h.tv("t"); Twist u=stwist("u"); h.ck("F*t",F*t,f*t.value()); h.ck("F*u",F*u,f*u); h.ck("F^-1 t",F.Inverse(t),f.Inverse(t.value())); h.ck("F^-1 u",F.Inverse(u),f.Inverse(u)); }
VX_CASE(twist){ H h; TwistVel a=h.tv("a"),b=h.tv("b"); Twist c=stwist("c"); double k=vx::real("k"); vx::assume_ne(k,0); doubleVel d=h.dv("d"); vx::assume_ne(d.t,0); VectorVel r=h.vv("r"); Twist x=a.value(),y=b.value();
  h.ck("+",a+b,x+y); h.ck("-",a-b,x-y); h.ck("neg",-a,-x); h.ck("*k",a*k,x*k); h.ck("k*",k*a,k*x); h.ck("/k",a/k,x/k); h.ck("*d",a*d,x*d.t); h.ck("d*",d*a,x*d.t); h.ck("/d",a/d,x/d.t); TwistVel e=a; e+=b; h.ck("+=",e,x+y); e=a; e-=b; h.ck("-=",e,x-y); e=a; e.ReverseSign(); h.ck("Rev",e,-x); e=a; SetToZero(e); h.ck("0",e,Twist::Zero()); h.ck("Zero",TwistVel::Zero(),Twist::Zero()); h.ck("RefPoint",a.RefPoint(r),x.RefPoint(r.p)); h.ck("ctor(Twist)",TwistVel(c),c); eq("GetTwist",a.GetTwist(),x); eq("GetTwistDot",a.GetTwistDot(),Twist(a.vel.v,a.rot.v)); eq("deriv",a.deriv(),a.GetTwistDot()); h.ck("ctor(value,deriv)",TwistVel(x,a.deriv()),x); }
VX_CASE(delta){ H h; VectorVel a=h.vv("a"),b=h.vv("b"); double dt=vx::real("dt"); vx::assume_ne(dt,0); VectorVel d=diff(a,b,dt),c=addDelta(a,d,dt); eq("vector value",c.p,b.p); eq("vector velocity",c.v,b.v); h.ck("diff",d,diff(a.p,b.p,dt)); doubleVel x=h.dv("x"),y=h.dv("y"),e=diff(x,y,dt),f=addDelta(x,e,dt); eq("double value",f.t,y.t); eq("double velocity",f.grad,y.grad); }
