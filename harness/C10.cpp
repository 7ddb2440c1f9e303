// SRC: frames utilities/utility frameacc framevel
#include "mot.h"
#include <frameacc.hpp>
using namespace KDL; using namespace kx;
struct H:Mot{
  VectorAcc vv(const string&n){ MV a=vec(n); return VectorAcc(kv(a.p),kv(a.v),kv(a.a)); } RotationAcc rv(const string&n){ MR a=rot(n); return RotationAcc(kr(a.R),kv(a.w),kv(a.dw)); } FrameAcc fv(const string&n){ return FrameAcc(rv(n+".M"),vv(n+".p")); } TwistAcc tv(const string&n){ return TwistAcc(vv(n+".v"),vv(n+".w")); } doubleAcc dv(const string&n){ Q a=var(n); return doubleAcc(a.q,a.d,a.dd); }
  void ck(const string&l,const VectorAcc&r,const Vector&val){ eq(l+" value",r.p,val); eq(l+" velocity",of(r.v),D(of(val)),1e-4); eq(l+" acceleration",of(r.dv),D(of(r.v)),1e-4); }
  void ck(const string&l,const RotationAcc&r,const Rotation&val){ eq(l+" value",r.R,val); eq(l+" velocity",mul(skew(of(r.w)),of(val)),D(of(val)),1e-4); eq(l+" acceleration",of(r.dw),D(of(r.w)),1e-4); }
  void ck(const string&l,const FrameAcc&r,const Frame&val){ ck(l+" M",r.M,val.M); ck(l+" p",r.p,val.p); }
  void ck(const string&l,const TwistAcc&r,const Twist&val){ ck(l+" vel",r.vel,val.vel); ck(l+" rot",r.rot,val.rot); }
  void ck(const string&l,const doubleAcc&r,double val){ eq(l+" value",r.t,val); eq(l+" velocity",r.d,D(val),1e-4); eq(l+" acceleration",r.dd,D(r.d),1e-4); }
};
static Twist val(const TwistAcc&a){ return Twist(a.vel.p,a.rot.p); }
VX_CASE(vector_linear){ H h; VectorAcc a=h.vv("a"),b=h.vv("b"); Vector c=svec("c"); double k=vx::real("k"); vx::assume_ne(k,0); doubleAcc d=h.dv("d");
  h.ck("a+b",a+b,a.p+b.p); h.ck("a-b",a-b,a.p-b.p); h.ck("a+c",a+c,a.p+c); h.ck("c+a",c+a,c+a.p); h.ck("a-c",a-c,a.p-c); h.ck("c-a",c-a,c-a.p); h.ck("-a",-a,-a.p);
  VectorAcc e=a; e+=b; h.ck("+=",e,a.p+b.p); e=a; e-=b; h.ck("-=",e,a.p-b.p); e=a; e.ReverseSign(); h.ck("Rev",e,-a.p); e=a; e+=e; h.ck("self+=",e,a.p+a.p); e=a; e=c; h.ck("=Vector",e,c); h.ck("ctor(Vector)",VectorAcc(c),c); h.ck("Zero",VectorAcc::Zero(),Vector::Zero());
  h.ck("a*k",a*k,a.p*k); h.ck("k*a",k*a,k*a.p); h.ck("a/k",a/k,a.p/k); h.ck("d*a",d*a,d.t*a.p); h.ck("a*d",a*d,a.p*d.t); }
VX_CASE(vector_div){ H h; VectorAcc a=h.vv("a"); doubleAcc d=h.dv("d"); vx::assume_ne(d.t,0); h.ck("a/d",a/d,a.p/d.t); }
VX_CASE(vector_products){ H h; VectorAcc a=h.vv("a"),b=h.vv("b"); Vector c=svec("c"); Rotation R=skrot("R");
  h.ck("axb",a*b,a.p*b.p); h.ck("axc",a*c,a.p*c); h.ck("cxa",c*a,c*a.p); h.ck("dot",dot(a,b),KDL::dot(a.p,b.p)); h.ck("dot c",dot(a,c),KDL::dot(a.p,c)); h.ck("c dot",dot(c,a),KDL::dot(c,a.p)); h.ck("R*a",R*a,R*a.p); VectorAcc e=a; e=e*b; h.ck("a=a*b",e,a.p*b.p); }
VX_CASE(vector_norm){ H h; VectorAcc a=h.vv("a"); vx::assume_lt(1e-9,dot(of(a.p),of(a.p))); doubleAcc n=a.Norm(); eq("norm value",n.t*n.t,dot(of(a.p),of(a.p))); eq("norm velocity",n.t*n.d,dot(of(a.p),of(a.v))); eq("norm acceleration",n.d*n.d+n.t*n.dd,dot(of(a.v),of(a.v))+dot(of(a.p),of(a.dv)),1e-4); }
VX_CASE(rotation_products){ H h; RotationAcc R=h.rv("R"),S=h.rv("S"); Rotation C=skrot("C"); 
  h.ck("input",R,R.R); h.ck("R*S",R*S,R.R*S.R); h.ck("C*R",C*R,C*R.R); h.ck("R*C",R*C,R.R*C); RotationAcc T=R; T=T*S; h.ck("R=R*S",T,R.R*S.R); }
VX_CASE(rotation_const){ H h; RotationAcc R=h.rv("R"); Rotation C=skrot("C"); RotationAcc T=R; T=C; h.ck("=Rotation",T,C); h.ck("ctor(R)",RotationAcc(C),C); h.ck("Identity",RotationAcc::Identity(),Rotation::Identity()); h.ck("default",RotationAcc(),Rotation::Identity()); h.ck("R^-1",R.Inverse(),R.R.Inverse()); }
VX_CASE(rotation_action){ H h; RotationAcc R=h.rv("R"); VectorAcc a=h.vv("a"); Vector c=svec("c"); h.ck("R*a",R*a,R.R*a.p); h.ck("R*c",R*c,R.R*c); h.ck("R^-1 a",R.Inverse(a),R.R.Inverse(a.p)); h.ck("R^-1 c",R.Inverse(c),R.R.Inverse(c)); }
VX_CASE(rotation_twist){ H h; RotationAcc R=h.rv("R"); TwistAcc t=h.tv("t"); Twist u=stwist("u"); h.ck("R*t",R*t,R.R*val(t)); h.ck("R*u",R*u,R.R*u); h.ck("R^-1 t",R.Inverse(t),R.R.Inverse(val(t))); h.ck("R^-1 u",R.Inverse(u),R.R.Inverse(u)); }
VX_CASE(frame_product){ H h; FrameAcc F=h.fv("F"),G=h.fv("G"); h.ck("F*G",F*G,F.GetFrame()*G.GetFrame()); FrameAcc T=F; T=T*G; h.ck("F=F*G",T,F.GetFrame()*G.GetFrame()); }
VX_CASE(frame_mixed){ H h; FrameAcc F=h.fv("F"); Frame C=sframe("C"); h.ck("C*F",C*F,C*F.GetFrame()); h.ck("F*C",F*C,F.GetFrame()*C); h.ck("F^-1",F.Inverse(),F.GetFrame().Inverse()); FrameAcc T=F; T=C; h.ck("=Frame",T,C); h.ck("ctor(F)",FrameAcc(C),C); h.ck("Identity",FrameAcc::Identity(),Frame::Identity()); h.ck("default",FrameAcc(),Frame::Identity());
  eq("GetTwist vel",F.GetTwist().vel,F.p.v); eq("GetTwist rot",F.GetTwist().rot,F.M.w); eq("GetAccTwist vel",F.GetAccTwist().vel,F.p.dv); eq("GetAccTwist rot",F.GetAccTwist().rot,F.M.dw); FrameAcc K(F.GetFrame(),F.GetTwist(),F.GetAccTwist()); h.ck("ctor(frame,twist,acc)",K,F.GetFrame()); FrameAcc L; L=F; h.ck("assign",L,F.GetFrame()); }
VX_CASE(frame_action){ H h; FrameAcc F=h.fv("F"); VectorAcc a=h.vv("a"); Vector c=svec("c"); Frame f=F.GetFrame(); h.ck("F*a",F*a,f*a.p); h.ck("F*c",F*c,f*c); h.ck("F^-1 a",F.Inverse(a),f.Inverse(a.p)); h.ck("F^-1 c",F.Inverse(c),f.Inverse(c)); }
VX_CASE(frame_twist){ H h; FrameAcc F=h.fv("F"); Frame f=F.GetFrame(); TwistAcc t=h.tv("t"); Twist u=stwist("u"); h.ck("F*t",F*t,f*val(t)); h.ck("F*u",F*u,f*u); h.ck("F^-1 u",F.Inverse(u),f.Inverse(u)); }
VX_CASE(frame_inv_twist){ H h; FrameAcc F=h.fv("F"); Frame f=F.GetFrame(); TwistAcc t=h.tv("t"); h.ck("F^-1 t",F.Inverse(t),f.Inverse(val(t))); }
VX_CASE(twist){ H h; TwistAcc a=h.tv("a"),b=h.tv("b"); double k=vx::real("k"); vx::assume_ne(k,0); VectorAcc r=h.vv("r"); Twist x=val(a),y=val(b);
  h.ck("+",a+b,x+y); h.ck("-",a-b,x-y); h.ck("neg",-a,-x); h.ck("*k",a*k,x*k); h.ck("k*",k*a,k*x); h.ck("/k",a/k,x/k); TwistAcc e=a; e+=b; h.ck("+=",e,x+y); e=a; e-=b; h.ck("-=",e,x-y); e=a; e.ReverseSign(); h.ck("Rev",e,-x); h.ck("Zero",TwistAcc::Zero(),Twist::Zero()); h.ck("RefPoint",a.RefPoint(r),x.RefPoint(r.p)); eq("GetTwist",a.GetTwist(),x); eq("GetTwistDot",a.GetTwistDot(),Twist(a.vel.v,a.rot.v)); }
VX_CASE(twist_dual_scalar){ H h; TwistAcc a=h.tv("a"); doubleAcc d=h.dv("d"); vx::assume_ne(d.t,0); Twist x=val(a); h.ck("*d",a*d,x*d.t); h.ck("d*",d*a,x*d.t); h.ck("/d",a/d,x/d.t); }
