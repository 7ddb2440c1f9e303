// SRC: frames utilities/utility
#include "kx.h"
using namespace KDL; using namespace kx;
static double stepdt(){ double dt=vx::real("dt"); vx::assume_ne(dt,0); return dt; }
template<class T> void lin(const char*n,const T&a,const T&b,double dt,int k){ T d=diff(a,b,dt); T c=addDelta(a,d,dt); for(int i=0;i<k;i++){ eq(idx(string(n)+" add(diff)",i),c(i),b(i)); eq(idx(string(n)+" diff*dt",i),d(i)*dt,b(i)-a(i)); } T e=diff(a,addDelta(a,b,dt),dt); for(int i=0;i<k;i++) eq(idx(string(n)+" diff(add)",i),e(i),b(i)); T f=addDelta(a,diff(a,b)); for(int i=0;i<k;i++) eq(idx(string(n)+" default dt",i),f(i),b(i)); }
VX_CASE(linear){ double dt=stepdt(); lin("vector",svec("a"),svec("b"),dt,3); lin("twist",stwist("ta"),stwist("tb"),dt,6); lin("wrench",swrench("wa"),swrench("wb"),dt,6);
  double x=vx::real("x"),y=vx::real("y"); eq("scalar",addDelta(x,diff(x,y,dt),dt),y); eq("scalar diff",diff(x,y,dt)*dt,y-x); }
// b = a * rotation(u,t): every pair with relative angle t in (0,pi); in the base frame the axis is w = a*u
VX_CASE(rotation){ M3 A=srot("A"); V3 u=sunit("u"); double t=vx::range("t",1e-4,3.1415); vx::assume_lt(5e-5,sin(t)); Rotation a=kr(A),b=kr(mul(A,axang(u,t)));
  Vector d=diff(a,b); V3 dl=mulT(A,of(d)); /* the difference seen from a */ eq("diff direction",cross(dl,u),v3(0,0,0),1e-5); double n=dot(dl,u); eq("cos|diff|",cos(n),cos(t)); eq("sin|diff|",sin(n),sin(t)); vx::check_le("same sense",0,n); vx::reach("end"); }
VX_CASE(rotation_add){ M3 A=srot("A"); V3 w=sunit("w"); double t=vx::range("t",1e-4,3.1415); vx::assume_lt(5e-5,sin(t)); Rotation a=kr(A),b=kr(mul(axang(w,t),A));
  double dt=vx::range("dt",0.5,2); vx::note("rotation addDelta: axis*angle/dt with dt in (0.5,2)"); eq("addDelta(a,w*t/dt,dt)",addDelta(a,kv((t/dt)*w),dt),b,1e-5); }
VX_CASE(rotation_add1){ M3 A=srot("A"); V3 w=sunit("w"); double t=vx::range("t",1e-4,3.1415); Rotation a=kr(A),b=kr(mul(axang(w,t),A)); eq("addDelta default dt",addDelta(a,kv(t*w)),b,1e-5); }
VX_CASE(rotation_trivial){ Rotation a=skrot("a"); eq("diff(a,a)",diff(a,a),Vector(0,0,0)); eq("addDelta zero",addDelta(a,Vector(0,0,0)),a); Frame F(a,svec("p")); eq("frame diff(a,a)",diff(F,F),Twist::Zero()); eq("frame addDelta 0",addDelta(F,Twist::Zero()),F); }
VX_CASE(rotation_dt){ V3 w=sunit("w"); double t=vx::range("t",0.01,3.1),dt=stepdt(); vx::assume_lt(0.005,sin(t)); Rotation a=kr(roty(vx::real("ay"))),b=a*kr(axang(w,t)); Vector d1=diff(a,b),d=diff(a,b,dt); for(int i=0;i<3;i++) eq(idx("diff scales with dt",i),d(i)*dt,d1(i)); }
VX_CASE(roundtrip){ M3 A=rotz(vx::real("A.z")); double ua=vx::real("ua"); V3 u=v3(cos(ua),0,sin(ua)); double t=vx::range("t",0.01,3.1); vx::assume_lt(0.005,sin(t)); Rotation a=kr(A),b=kr(mul(A,axang(u,t))); eq("addDelta(a,diff(a,b))",addDelta(a,diff(a,b)),b,1e-5); }
VX_CASE(frame){ M3 A=roty(vx::real("A.b")); V3 u=sunit("u"),p=sv("p"),q=sv("q"); double t=vx::range("t",0.01,3.1); vx::assume_lt(0.005,sin(t)); double dt=vx::range("dt",0.5,2); Frame F(kr(A),kv(p)),G(kr(mul(A,axang(u,t))),kv(q));
  Twist d=diff(F,G,dt); eq("frame diff vel",dt*of(d.vel),q-p); eq("frame diff rot = rotation diff",d.rot,diff(F.M,G.M,dt)); eq("frame diff rot in base",cross(mulT(A,of(d.rot)),u),v3(0,0,0),1e-5); }
VX_CASE(frame_add){ M3 A=srot("A"); V3 w=sunit("w"),p=sv("p"),q=sv("q"); double t=vx::range("t",0.01,3.1); double dt=vx::range("dt",0.5,2); Frame F(kr(A),kv(p)); Frame H=addDelta(F,Twist(kv((1/dt)*(q-p)),kv((t/dt)*w)),dt); eq("frame addDelta",H,Frame(kr(mul(axang(w,t),A)),kv(q)),1e-5); }
VX_CASE(integrate){ Frame F=sframe("F"); V3 u=sunit("u"); double n=vx::range("n",0.001,3),f=vx::range("f",0.5,2); Vector v=svec("v"); Frame G=F; G.Integrate(Twist(v,kv(n*u)),f);
  eq("Integrate M",of(G.M),mul(of(F.M),axang(u,n/f)),1e-5); eq("Integrate p",of(G.p),of(F.p)+(1/f)*mul(of(F.M),of(v)));
  Frame H=F; H.Integrate(Twist(v,Vector(0,0,0)),f); eq("Integrate translation M",H.M,F.M); eq("Integrate translation p",of(H.p),of(F.p)+(1/f)*mul(of(F.M),of(v))); }
