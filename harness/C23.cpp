// SRC: frames utilities/utility rigidbodyinertia rotationalinertia articulatedbodyinertia
// BOUNDS: all masses, centres of gravity, symmetric rotational inertias, articulated inertias (symmetric blocks), twists, proper rotations and frames; no loops
#include "iner.h"
#include <frames_io.hpp>
using namespace KDL; using namespace kx;
typedef Eigen::Matrix3d E3;
static Tw rotT(const M3&R,const Tw&t){ return {mul(R,t.v),mul(R,t.w)}; }
static Tw invRot(const M3&R,const Tw&t){ return {mulT(R,t.v),mulT(R,t.w)}; }
static Tw twToB(const P&T,const Tw&t){ return {mulT(T.R,t.v-cross(T.p,t.w)),mulT(T.R,t.w)}; }            // a-twist seen from b (T = b in a): velocity of b's origin
static Tw wrToA(const P&T,const Tw&f){ V3 g=mul(T.R,f.v); return {g,mul(T.R,f.w)+cross(T.p,g)}; }
static Tw twRef(const Tw&t,V3 p){ return {t.v+cross(t.w,p),t.w}; }
static Tw wrRef(const Tw&f,V3 p){ return {f.v,f.w-cross(p,f.v)}; }
static double pw(const Twist&t,const Wrench&w){ return dot(of(t.vel),of(w.force))+dot(of(t.rot),of(w.torque)); }
static RotationalInertia ski(const string&n){ return RotationalInertia(vx::real(n+"xx"),vx::real(n+"yy"),vx::real(n+"zz"),vx::real(n+"xy"),vx::real(n+"xz"),vx::real(n+"yz")); }
static M3 m3(const RotationalInertia&I){ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=I.data[3*i+j]; return r; }
VX_CASE(rotational){ double a[6]; for(int i=0;i<6;i++) a[i]=vx::real(idx("a",i)); RotationalInertia I(a[0],a[1],a[2],a[3],a[4],a[5]); M3 M={{{a[0],a[3],a[4]},{a[3],a[1],a[5]},{a[4],a[5],a[2]}}};
  eq("entries",m3(I),M); V3 w=sv("w"); eq("angular momentum",I*kv(w),mul(M,w)); RotationalInertia J=ski("J"); M3 N=m3(J); double s=vx::real("s"); eq("sum",m3(I+J),add(M,N)); eq("scaled",m3(s*I),scale(s,M)); eq("zero",m3(RotationalInertia::Zero()),scale(0,eye())); eq("default",m3(RotationalInertia()),scale(0,eye()));
  RotationalInertia K; K=I; eq("assigned",m3(K),M); K=I+I; eq("self sum",m3(K),scale(2,M)); }
VX_CASE(rigid_constructed){ RI r=sri("r"); RigidBodyInertia I=r.rbi(); eq("mass",I.getMass(),r.m); eq("first moment",I.getSpatialMomentum(),r.m*r.c); M3 S=skew(r.c); eq("inertia about the reference point",m3(I.getRotationalInertia()),add(r.I,scale(-r.m,mul(S,S)))); 
  V3 g=of(I.getCOG()); if(r.m==0) eq("massless cog",kv(g),v3(0,0,0)); else eq("cog",kv(g),r.c); RigidBodyInertia D,Z=RigidBodyInertia::Zero(),M1(r.m),M2(r.m,kv(r.c)); Tw t=stw("t"); eqw("default",D*kt(t),{v3(0,0,0),v3(0,0,0)}); eqw("zero",Z*kt(t),{v3(0,0,0),v3(0,0,0)}); eqw("point mass",M1*kt(t),{r.m*t.v,v3(0,0,0)}); RI p=r; p.I=scale(0,eye()); eqw("point mass off centre",M2*kt(t),p.mom(t)); }
VX_CASE(rigid_momentum){ RI r=sri("r"); RigidBodyInertia I=r.rbi(); Tw t=stw("t"); Wrench h=I*kt(t); eqw("momentum",h,r.mom(t)); eq("kinetic energy",0.5*pw(kt(t),h),r.energy(t)); Twist u=stwist("u"); eq("symmetric",pw(u,h),pw(kt(t),I*u)); }
VX_CASE(rigid_sum_scale){ RI a=sri("a"),b=sri("b"); double s=vx::real("s"); Tw t=stw("t"); Tw x=a.mom(t),y=b.mom(t); RigidBodyInertia A=a.rbi(),B=b.rbi(); eqw("sum",(A+B)*kt(t),{x.v+y.v,x.w+y.w}); eqw("scaled",(s*A)*kt(t),{s*x.v,s*x.w}); A=A+A; eqw("doubled in place",A*kt(t),{2.0*x.v,2.0*x.w}); RigidBodyInertia S=B+B; if(b.m!=0) eq("cog of doubled body",S.getCOG(),b.c); eq("mass of sum",(A+B).getMass(),2*a.m+b.m); }
VX_CASE(rigid_frame){ RI r=sri("r"); P T{srot("R"),sv("p")}; Tw t=stw("t"); RigidBodyInertia B=kf(T)*r.rbi(); Wrench h=B*kt(t); eqw("momentum in the new frame",h,wrToA(T,r.mom(twToB(T,t)))); eq("mass",B.getMass(),r.m); if(r.m!=0) eq("cog",B.getCOG(),mul(T.R,r.c)+T.p); eq("energy",0.5*pw(kt(t),h),r.energy(twToB(T,t))); eqw("library transforms commute",kf(T)*(r.rbi()*(kf(T).Inverse(kt(t)))),of(Twist(h.force,h.torque))); eqw("round trip",(kf(T).Inverse()*B)*kt(t),r.mom(t)); }
VX_CASE(rigid_frame_compose){ RI r=sri("r"); P T{rotx(vx::real("a")),sv("p")},U{rotz(vx::real("b")),sv("q")}; Tw t=stw("t"); Wrench h=(kf(U)*(kf(T)*r.rbi()))*kt(t); eqw("successive frames",(kf(U)*kf(T)*r.rbi())*kt(t),of(Twist(h.force,h.torque))); }
VX_CASE(rigid_rotation){ RI r=sri("r"); M3 R=srot("R"); Tw t=stw("t"); RigidBodyInertia B=kr(R)*r.rbi(); Wrench h=B*kt(t); eqw("momentum in the rotated base",h,rotT(R,r.mom(invRot(R,t)))); eq("mass",B.getMass(),r.m); if(r.m!=0) eq("cog",B.getCOG(),mul(R,r.c)); eq("energy",0.5*pw(kt(t),h),r.energy(invRot(R,t))); }
VX_CASE(rigid_refpoint){ RI r=sri("r"); V3 p=sv("p"); Tw t=stw("t"); RigidBodyInertia A=r.rbi(),B=A.RefPoint(kv(p)); Tw tn=twRef(t,p); Wrench h=B*kt(tn); eqw("momentum about the new point",h,wrRef(r.mom(t),p)); eqw("the original is unchanged",A*kt(t),r.mom(t)); eq("energy",0.5*pw(kt(tn),h),r.energy(t)); eq("mass",B.getMass(),r.m); if(r.m!=0) eq("cog",B.getCOG(),r.c-p); eqw("round trip",B.RefPoint(kv(-1.0*p))*kt(t),r.mom(t)); V3 q=sv("q"); Wrench g=B.RefPoint(kv(q))*kt(t); eqw("successive points add",A.RefPoint(kv(p+q))*kt(t),of(Twist(g.force,g.torque))); }
// articulated ------------------------------------------------------------------------------------------------------
static E3 sym3(const string&n){ E3 r; for(int i=0;i<3;i++) for(int j=i;j<3;j++) r(i,j)=r(j,i)=vx::real(idx(n,i,j)); return r; }
static E3 any3(const string&n){ E3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r(i,j)=vx::real(idx(n,i,j)); return r; }
static M3 of(const E3&e){ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=e(i,j); return r; }
struct AI{ M3 M,H,I; Tw mom(const Tw&t)const{ return {mul(M,t.v)+mulT(H,t.w),mul(I,t.w)+mul(H,t.v)}; } };
static AI of(const ArticulatedBodyInertia&a){ return {of(a.M),of(a.H),of(a.I)}; }
static ArticulatedBodyInertia sabi(const string&n){ return ArticulatedBodyInertia(sym3(n+"M"),any3(n+"H"),sym3(n+"I")); }
VX_CASE(articulated_from_rigid){ RI r=sri("r"); Tw t=stw("t"); ArticulatedBodyInertia A(r.rbi()),B(r.m,kv(r.c),RotationalInertia(r.I.m[0][0],r.I.m[1][1],r.I.m[2][2],r.I.m[0][1],r.I.m[0][2],r.I.m[1][2])),Z,Z2=ArticulatedBodyInertia::Zero(),M1(r.m); A=A; eqw("same momentum",A*kt(t),r.mom(t)); eqw("same momentum (parameters)",B*kt(t),r.mom(t)); eqw("default is zero",Z*kt(t),{v3(0,0,0),v3(0,0,0)}); eqw("zero",Z2*kt(t),{v3(0,0,0),v3(0,0,0)}); eqw("mass only",M1*kt(t),{r.m*t.v,v3(0,0,0)}); }
VX_CASE(articulated_momentum){ ArticulatedBodyInertia A=sabi("A"); AI a=of(A); Tw t=stw("t"); Wrench h=A*kt(t); eqw("momentum",h,a.mom(t)); Twist u=stwist("u"); eq("symmetric",pw(u,h),pw(kt(t),A*u)); }
VX_CASE(articulated_linear){ ArticulatedBodyInertia A(any3("AM"),any3("AH"),any3("AI")),B(any3("BM"),any3("BH"),any3("BI")); AI a=of(A),b=of(B); double s=vx::real("s"); Tw t=stw("t"),x=a.mom(t),y=b.mom(t); eqw("sum",(A+B)*kt(t),{x.v+y.v,x.w+y.w}); eqw("difference",(A-B)*kt(t),{x.v-y.v,x.w-y.w}); eqw("scaled",(s*A)*kt(t),{s*x.v,s*x.w}); ArticulatedBodyInertia C=A; C=C+C; eqw("doubled in place",C*kt(t),{2.0*x.v,2.0*x.w}); C=A; C=C-C; eqw("minus itself",C*kt(t),{v3(0,0,0),v3(0,0,0)}); }
VX_CASE(articulated_with_rigid){ ArticulatedBodyInertia A=sabi("A"); AI a=of(A); RI r=sri("r"); Tw t=stw("t"),x=a.mom(t),y=r.mom(t); eqw("articulated + rigid",(A+r.rbi())*kt(t),{x.v+y.v,x.w+y.w}); eqw("articulated - rigid",(A-r.rbi())*kt(t),{x.v-y.v,x.w-y.w}); eqw("rigid + articulated",(ArticulatedBodyInertia(r.rbi())+A)*kt(t),{x.v+y.v,x.w+y.w}); eqw("rigid - articulated",(ArticulatedBodyInertia(r.rbi())-A)*kt(t),{y.v-x.v,y.w-x.w}); }
VX_CASE(articulated_frame){ ArticulatedBodyInertia A=sabi("A"); AI a=of(A); P T{srot("R"),sv("p")}; Tw t=stw("t"); Wrench h=(kf(T)*A)*kt(t); eqw("momentum in the new frame",h,wrToA(T,a.mom(twToB(T,t)))); Twist tb=kt(twToB(T,t)); eq("energy",pw(kt(t),h),pw(tb,A*tb)); }
VX_CASE(articulated_rotation){ ArticulatedBodyInertia A=sabi("A"); AI a=of(A); M3 R=srot("R"); Tw t=stw("t"); eqw("momentum in the rotated base",(kr(R)*A)*kt(t),rotT(R,a.mom(invRot(R,t)))); }
VX_CASE(articulated_refpoint){ ArticulatedBodyInertia A=sabi("A"); AI a=of(A); V3 p=sv("p"); Tw t=stw("t"),tn=twRef(t,p); eqw("momentum about the new point",A.RefPoint(kv(p))*kt(tn),wrRef(a.mom(t),p)); eqw("the original is unchanged",A*kt(t),a.mom(t)); }
VX_CASE(articulated_rigid_agree){ RI r=sri("r"); P T{srot("R"),sv("p")}; Tw t=stw("t"); RigidBodyInertia I=r.rbi(); Wrench h=(kf(T)*I)*kt(t); eqw("frame",(kf(T)*ArticulatedBodyInertia(I))*kt(t),of(Twist(h.force,h.torque))); h=(kr(T.R)*I)*kt(t); eqw("rotation",(kr(T.R)*ArticulatedBodyInertia(I))*kt(t),of(Twist(h.force,h.torque))); h=I.RefPoint(kv(T.p))*kt(t); eqw("reference point",ArticulatedBodyInertia(I).RefPoint(kv(T.p))*kt(t),of(Twist(h.force,h.torque))); }
