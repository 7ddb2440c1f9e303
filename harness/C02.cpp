// SRC: frames utilities/utility
#include "kx.h"
#include <stiffness.hpp>
using namespace KDL; using namespace kx;
// reference: transport of a twist / wrench
VX_CASE(power){
  Frame F=sframe("F"); Twist t=stwist("t"); Wrench w=swrench("w"); Vector r=svec("r");
  double p=dot(of(t.vel),of(w.force))+dot(of(t.rot),of(w.torque));
  eq("dot(t,w)",KDL::dot(t,w),p); eq("dot(w,t)",KDL::dot(w,t),p);
  eq("power frame",KDL::dot(F*t,F*w),p); eq("power rotation",KDL::dot(F.M*t,F.M*w),p); eq("power refpoint",KDL::dot(t.RefPoint(r),w.RefPoint(r)),p);
  eq("power inverse frame",KDL::dot(F.Inverse(t),F.Inverse(w)),p); eq("power inverse rotation",KDL::dot(F.M.Inverse(t),F.M.Inverse(w)),p);
}
VX_CASE(actions){
  Frame F=sframe_free("F"); Twist t=stwist("t"); Wrench w=swrench("w"); Vector r=svec("r");
  M3 R=of(F.M); V3 p=of(F.p);
  Twist a=F*t; eq("F*t rot",of(a.rot),mul(R,of(t.rot))); eq("F*t vel",of(a.vel),mul(R,of(t.vel))+cross(p,mul(R,of(t.rot))));
  Wrench b=F*w; eq("F*w force",of(b.force),mul(R,of(w.force))); eq("F*w torque",of(b.torque),mul(R,of(w.torque))+cross(p,mul(R,of(w.force))));
  a=F.M*t; eq("R*t rot",of(a.rot),mul(R,of(t.rot))); eq("R*t vel",of(a.vel),mul(R,of(t.vel)));
  b=F.M*w; eq("R*w f",of(b.force),mul(R,of(w.force))); eq("R*w t",of(b.torque),mul(R,of(w.torque)));
  a=t.RefPoint(r); eq("ref t rot",of(a.rot),of(t.rot)); eq("ref t vel",of(a.vel),of(t.vel)+cross(of(t.rot),of(r)));
  b=w.RefPoint(r); eq("ref w f",of(b.force),of(w.force)); eq("ref w t",of(b.torque),of(w.torque)+cross(of(w.force),of(r)));
  a=F.M.Inverse(t); eq("R^-1 t vel",of(a.vel),mulT(R,of(t.vel))); eq("R^-1 t rot",of(a.rot),mulT(R,of(t.rot)));
  b=F.M.Inverse(w); eq("R^-1 w f",of(b.force),mulT(R,of(w.force))); eq("R^-1 w t",of(b.torque),mulT(R,of(w.torque)));
  a=t; a=F*a; eq("t=F*t",a,F*t); a=t; a=a.RefPoint(r); eq("t=t.RefPoint",a,t.RefPoint(r)); b=w; b=F*b; eq("w=F*w",b,F*w);
}
VX_CASE(inverse){
  Frame F=sframe("F"),G=sframe("G"); Twist t=stwist("t"); Wrench w=swrench("w"); Vector r=svec("r"),s=svec("s");
  eq("F^-1(F t)",F.Inverse(F*t),t); eq("F(F^-1 t)",F*F.Inverse(t),t); eq("F^-1*t",F.Inverse()*t,F.Inverse(t));
  eq("F^-1(F w)",F.Inverse(F*w),w); eq("F(F^-1 w)",F*F.Inverse(w),w); eq("F^-1*w",F.Inverse()*w,F.Inverse(w));
  eq("R^-1 t",F.M.Inverse(F.M*t),t); eq("R^-1 w",F.M.Inverse(F.M*w),w);
  eq("(FG)t",(F*G)*t,F*(G*t)); eq("(FG)w",(F*G)*w,F*(G*w));
  eq("ref add t",t.RefPoint(r).RefPoint(s),t.RefPoint(r+s)); eq("ref add w",w.RefPoint(r).RefPoint(s),w.RefPoint(r+s));
  eq("F*t as rot+ref",F*t,(F.M*t).RefPoint(-F.p)); eq("F*w as rot+ref",F*w,(F.M*w).RefPoint(-F.p));
}
VX_CASE(spatial_cross){
  Twist t=stwist("t"),u=stwist("u"); Wrench w=swrench("w"); Frame F=sframe("F");
  Twist m=t*u; eq("txu rot",of(m.rot),cross(of(t.rot),of(u.rot))); eq("txu vel",of(m.vel),cross(of(t.rot),of(u.vel))+cross(of(t.vel),of(u.rot)));
  Wrench f=t*w; eq("txw f",of(f.force),cross(of(t.rot),of(w.force))); eq("txw t",of(f.torque),cross(of(t.rot),of(w.torque))+cross(of(t.vel),of(w.force)));
  eq("duality",KDL::dot(t*u,w)+KDL::dot(u,t*w),0.0); eq("antisym",t*u,-(u*t));
  eq("F(txu)",F*(t*u),(F*t)*(F*u)); eq("F(txw)",F*(t*w),(F*t)*(F*w));
}
template<class T> void linear(const char*nm,T a,T b){
  string n=nm; double k=vx::real("k"); vx::assume_ne(k,0);
  T s=a+b,d=a-b,m=a*k,m2=k*a,q=a/k,ng=-a,z=T::Zero(),pe=a,me=a,rv=a,sz=a; pe+=b; me-=b; rv.ReverseSign(); SetToZero(sz);
  T al=a; al+=al; T as=a; as-=as; const T&ca=a;
  for(int i=0;i<6;i++){ string x=n+std::to_string(i);
    eq(x+" +",s(i),a(i)+b(i)); eq(x+" -",d(i),a(i)-b(i)); eq(x+" *k",m(i),a(i)*k); eq(x+" k*",m2(i),a(i)*k); eq(x+" /k",q(i),a(i)/k); eq(x+" neg",ng(i),-a(i)); eq(x+" zero",z(i),0.0); eq(x+" +=",pe(i),a(i)+b(i)); eq(x+" -=",me(i),a(i)-b(i)); eq(x+" ReverseSign",rv(i),-a(i)); eq(x+" SetToZero",sz(i),0.0); eq(x+" self+=",al(i),2*a(i)); eq(x+" self-=",as(i),0.0); eq(x+" []",a[i],a(i)); eq(x+" const()",ca(i),a(i)); eq(x+" const[]",ca[i],a(i));
    double v=vx::real(idx("v",i)); T c=a,c2=a; c(i)=v; c2[i]=v; for(int j=0;j<6;j++){ eq(x+" write()",c(j),i==j?v:a(j)); eq(x+" write[]",c2(j),i==j?v:a(j)); } }
}
VX_CASE(linear_twist){ Twist a=stwist("a"),b=stwist("b"); linear("twist",a,b); for(int i=0;i<3;i++){ eq(idx("tw vel",i),a(i),a.vel.data[i]); eq(idx("tw rot",i),a(i+3),a.rot.data[i]); } }
VX_CASE(linear_wrench){ Wrench a=swrench("a"),b=swrench("b"); linear("wrench",a,b); for(int i=0;i<3;i++){ eq(idx("wr f",i),a(i),a.force.data[i]); eq(idx("wr t",i),a(i+3),a.torque.data[i]); } }
VX_CASE(stiffness){
  double d[6]; for(int i=0;i<6;i++) d[i]=vx::real(idx("d",i)); Twist t=stwist("t"); Wrench w=swrench("w");
  Stiffness S(d); Wrench r=S*t; Stiffness Z; Stiffness C; for(int i=0;i<6;i++){ vx::assume_ne(d[i],0); C[i]=d[i]; }
  Twist inv=S.Inverse(w); Stiffness B=S+C,X(d[0],d[1],d[2],d[3],d[4],d[5]); const Stiffness&cS=S;
  for(int i=0;i<6;i++){ eq(idx("S*t",i),r(i),d[i]*t(i)); eq(idx("S[]",i),S[i],d[i]); eq(idx("S const[]",i),cS[i],d[i]); eq(idx("S(6)",i),X[i],d[i]); eq(idx("zero",i),Z[i],0.0); eq(idx("S^-1 w",i),inv(i)*d[i],w(i));  eq(idx("S+",i),B[i],2*d[i]); }
  eq("S^-1 S t",S.Inverse(S*t),t);
}
