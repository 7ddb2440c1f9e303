// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia articulatedbodyinertia jntarray jacobian chainhdsolver_vereshchagin
// BOUNDS: chains of 1..2 moving joints (all 8 moving types; 3 prismatic/revolute ones in the thorough tier), with a fixed joint at every place, 0..2 constraint directions, all inertias (2 joints: point masses), rotor inertias, root accelerations, states, feed-forward torques and external wrenches; the singular value decomposition of the constraint matrix is replaced by its contract (A = U S V', orthogonal U and V, S above the library's threshold); a two-joint revolute arm with symbolic positions; arms of 4 to 8 moving joints at given positions with given inertias, symbolic rates, torques, external wrenches, root acceleration (linear and angular) and accelerations demanded by one or two constraints, against Newton-Euler equations written in world axes
#include "dyn.h"
#include <utilities/svd_eigen_HH.hpp>
#include <chainhdsolver_vereshchagin.hpp>
using namespace KDL; using namespace kx;
// Stand-in for the decomposition: any orthogonal factors and singular values; the residual A - U S V' is kept, its contract says it is zero.
static std::vector<Eigen::MatrixXd> RES; static bool REG;
namespace KDL{ __attribute__((weak)) int svd_eigen_HH(const Eigen::MatrixXd&A,Eigen::MatrixXd&U,Eigen::VectorXd&S,Eigen::MatrixXd&V,Eigen::VectorXd&,int,double){ int n=A.rows(); U.setZero(); V.setZero(); bool zero=true; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(vx::is_sym(A(i,j))||A(i,j)!=0) zero=false; string t=idx("svd",RES.size()); REG=!zero;
  if(zero){ for(int i=0;i<n;i++){ U(i,i)=V(i,i)=1; S(i)=0; } }
  else { for(int i=0;i<n;i++){ S(i)=vx::real_s(idx(t+".s",i),0.1,5); vx::assume_lt(1e-13,S(i)); } if(n==1){ U(0,0)=vx::flip(t+".u")?1:-1; V(0,0)=vx::flip(t+".v")?1:-1; } else { double a=vx::real(t+".ua"),b=vx::real(t+".va"),k=vx::flip(t+".reflect")?-1:1; U(0,0)=U(1,1)=cos(a); U(1,0)=sin(a); U(0,1)=-sin(a); V(0,0)=cos(b); V(1,0)=sin(b); V(0,1)=-k*sin(b); V(1,1)=k*cos(b); } }
  Eigen::MatrixXd R(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double x=A(i,j); for(int k=0;k<n;k++) x=x-U(i,k)*S(k)*V(j,k); R(i,j)=x; } RES.push_back(R); return 0; } }
static Wrenches wr(const std::vector<Tw>&f){ Wrenches r; for(auto&x:f) r.push_back(kw(x)); return r; }
static Twist dir(int k){ Twist t; t(k)=1; return t; }
static int D0=0,D1=5,D_=2;
static void judge(DC d,int nc,bool active,bool unit=false){ vx::generic_div(true); vx::note("regular articulated inertias: divisors are assumed non-zero"); int n=d.nj(),ns=d.ns(); Chain C=d.chain(); Mot h; std::vector<double> q,qd; struct A{ double dd; }; std::vector<double> dds; 
  auto q_=svq("q",n),v_=svq("qd",n); auto f=swr("f",ns); Jacobian alfa(nc); JntArray beta(nc),ff(n),qdd(n),ct(n); for(int c=0;c<nc;c++){ if(active&&unit) alfa.setColumn(c,dir(c?(nc==2?2:4):vx::choose("direction",D_)?D1:D0)); else if(active) alfa.setColumn(c,stwist(idx("alpha",c))); else alfa.setColumn(c,Twist::Zero()); beta(c)=vx::real(idx("beta",c)); } auto ffq=svq("ff",n); ff=ja(ffq); Twist root(kv(-1.0*d.g),Vector::Zero());
  ChainHdSolver_Vereshchagin S(C,root,nc); RES.clear(); vx::check("code",S.CartToJnt(ja(q_),ja(v_),qdd,alfa,beta,wr(f),ff,ct)==0); Eigen::VectorXd nu(nc); S.getContraintForceMagnitude(nu);
  // equations of motion: inertia, velocity and gravity terms balance feed-forward torques, external wrenches (base axes, at the link tips) and the constraint forces at the tip
  auto M=d.M(q_); auto c=d.cor(q_,v_); auto g=d.grav(q_); std::vector<Tw> loc; for(int s=0;s<ns;s++){ P T=d.c.pose(q_,s+1); Tw x=f[s]; if(s==ns-1) for(int k=0;k<nc;k++){ Twist al=alfa.getColumn(k); x.v=x.v-nu(k)*of(al.vel); x.w=x.w-nu(k)*of(al.rot); } loc.push_back({mulT(T.R,x.v),mulT(T.R,x.w)}); } auto jt=d.jtf(q_,loc);
  for(int i=0;i<n;i++){ double r=c[i]+g[i]-jt[i]-ffq[i]; for(int k=0;k<n;k++) r=r+M[i][k]*qdd(k); eq(idx("equation of motion",i),r,0,1e-4); }
  // tip acceleration (spatial, base axes, reference point at the tip) = J qdd + Jdot qd - w x v + root acceleration
  std::vector<Tw> X; std::vector<Twist> xs(ns+1); S.getTransformedLinkAcceleration(xs); eq("root acceleration",xs[0],root);
  for(int s=1;s<=ns;s++){ int m=d.c.before(s); Tw v={v3(0,0,0),v3(0,0,0)},a=v; std::vector<Tw> cols; for(int j=0;j<m;j++){ Tw t=d.c.col(q_,j,s); v={v.v+v_[j]*t.v,v.w+v_[j]*t.w}; a={a.v+qdd(j)*t.v,a.w+qdd(j)*t.w}; }
    for(int k=0;k<m;k++) for(int e=0;e<3;e++){ a.v[e]=a.v[e]+vx::diff(v.v[e],q_[k])*v_[k]; a.w[e]=a.w[e]+vx::diff(v.w[e],q_[k])*v_[k]; } a.v=a.v-cross(v.w,v.v)-d.g; eq(idx("link acceleration",s),xs[s],a,1e-3); }
  // constraints are met: alpha' * tip acceleration = beta (up to the residual of the decomposition, which its contract makes zero)
  if(active&&RES.size()==1&&REG) for(int k=0;k<nc;k++){ Twist al=alfa.getColumn(k); double y=dot(of(al.vel),of(xs[ns].vel))+dot(of(al.rot),of(xs[ns].rot)),r=0; for(int l=0;l<nc;l++) r=r+RES[0](k,l)*nu(l); eq(idx("constraint",k),y-beta(k),r,1e-4); }
  // total torque: the torque that accelerates each joint's articulated body; the last joint's constraint torque is the projected constraint force
  JntArray tot(n); S.getTotalTorque(tot); Tw last=d.c.col(q_,n-1,ns); double p=0; for(int k=0;k<nc;k++){ Twist al=alfa.getColumn(k); p=p-nu(k)*(dot(last.v,of(al.vel))+dot(last.w,of(al.rot))); } eq("constraint torque of the last joint",ct(n-1),p,1e-4); if(!active) for(int i=0;i<n;i++) eq(idx("no constraint torque",i),ct(i),0); 
  if(n==1){ eq("total torque",tot(0),M[0][0]*qdd(0),1e-4); } }
static const int FREE[]={1,2,2}, TR[]={2,2,2}; static int MV[]={0,1,2,3,4,5,7,8};
VX_CASE(one_joint_no_constraint){ judge(mkd(1,MV,8,true,FREE,0),vx::choose("nc",2),false); }
VX_CASE(one_joint_one_constraint){ int t[]={0,1,2,3,4,5}; judge(mkd(1,t,6,true,TR,2),1,true); }
VX_CASE(one_joint_any_axis){ int t[]={7,8}; judge(mkd(1,t,2,true,TR,2,true,false),1,true,true); }
VX_CASE(two_joints_no_constraint){ int t[]={5,7,8}; judge(mkd(2,t,3,true,TR,2,true,false),1,false); }
VX_CASE(two_prismatic){ int t[]={5,3,4}; judge(mkd(2,t,3,true,TR,2,true,false),1,true); }
VX_CASE(two_prismatic_two_constraints){ int t[]={5,3}; judge(mkd(2,t,2,true,TR,2,true,false),2,true); }
VX_CASE(revolute_and_prismatic){ int t[]={5,0}; judge(mkd(2,t,2,false,TR,2,true,false),1,true,true); }
// the velocity product acceleration acts along the constraint
VX_CASE(velocity_product){ D0=1; D1=2; int t[]={0}; DC d=mkd(2,t,1,false,TR,2,false,false); if(vx::flip("revolute first")) d.c.s[1].j=mkj("jp",5,false); else d.c.s[0].j=mkj("jp",5,false); judge(d,1,true,true); }
// fixed joints before, between and after the moving ones
static DC fixedat(int where,int kind){ static const int t2[]={2,2,2}; int n=where==2?3:2; int tk[]={kind}; DC d=mkd(n,tk,1,false,t2,2,false,false); int k=where==0?0:1; SS s; s.j=mkj("fixed",6,false); s.tip=mktip("tf",where==1?3:2); d.c.s[k]=s; d.rotor[k]=0; return d; }
VX_CASE(fixed_joint_no_constraint){ judge(fixedat(vx::choose("fixed",3),5),vx::choose("nc",2),false); }
VX_CASE(fixed_joint_constraint){ judge(fixedat(vx::choose("fixed",3),vx::flip("revolute")?0:5),1,true,true); }
VX_CASE_THOROUGH(two_joints_all){ int t[]={0,1,2,3,4,5}; judge(mkd(2,t,6,true,TR,2,true,false),1,true,true); }
VX_CASE_THOROUGH(three_joints){ int t[]={5,3,2}; judge(mkd(3,t,3,false,TR,2,true,false),1,false); }
// documented use of the constraint torques: sent to the joints (with the feed-forward torques) in place of the constraint, they produce the computed motion
VX_CASE(constraint_torques_as_commands){ vx::generic_div(true); int t[]={5,3}; DC d=mkd(2,t,2,false,TR,2,false,false); int n=2; Chain C=d.chain(); auto q=svq("q",n),v=svq("qd",n),ffq=svq("ff",n); Jacobian alfa(1); alfa.setColumn(0,dir(vx::choose("direction",2)?2:0)); JntArray beta(1),ff=ja(ffq),qdd(n),ct(n); beta(0)=vx::real("beta"); ChainHdSolver_Vereshchagin S(C,Twist(kv(-1.0*d.g),Vector::Zero()),1); vx::check("code",S.CartToJnt(ja(q),ja(v),qdd,alfa,beta,Wrenches(2,Wrench::Zero()),ff,ct)==0);
  auto M=d.M(q); auto c=d.cor(q,v); auto g=d.grav(q); for(int i=0;i<n;i++){ double r=c[i]+g[i]-ffq[i]-ct(i); for(int k=0;k<n;k++) r=r+M[i][k]*qdd(k); eq(idx("command torque of joint ",i),r,0,1e-4); } }
// arms of turning joints (given geometry and inertias)
VX_CASE(arm2){ static const int t[]={2,1}; judge(dynarm(t,2),1,true,true); }
// long arms in a given position: the oracle is Newton's and Euler's laws for every link in base axes
static M3 turn(int a){ M3 R=eye(); int i=(a+1)%3,j=(a+2)%3; R.m[i][i]=R.m[j][j]=0.6; R.m[i][j]=-0.8; R.m[j][i]=0.8; return R; }
static SC posed(const int*types,int n){ SC c=arm(types,n); for(int i=0;i<n;i++){ c.s[i].tip.R=turn(i%3); c.s[i].j.sc=i%2?1:-2; c.s[i].j.off=0; } return c; }
static void frozen(const SC&c0,int nc,int ndir){ DC d=dynarm(c0); const SC&c=d.c; int n=d.nj(),ns=d.ns(); std::vector<double> q(n,0.0); auto qd=svq("qd",n),ffq=svq("ff",n); auto f=swr("f",ns); Jacobian alfa(nc); JntArray beta(nc),ff=ja(ffq),qdd(n),ct(n); int first=vx::choose("direction",ndir); for(int k=0;k<nc;k++){ alfa.setColumn(k,dir((first+2*k)%6)); beta(k)=vx::real(idx("beta",k)); }
  for(int i=0;i<ns;i++) d.rotor[i]=0.25*(i%3); Chain C=d.chain(); V3 r0=sv("root.rot"); Twist root(kv(-1.0*d.g),kv(r0)); ChainHdSolver_Vereshchagin S(C,root,nc); RES.clear(); vx::check("code",S.CartToJnt(ja(q),ja(qd),qdd,alfa,beta,wr(f),ff,ct)==0); Eigen::VectorXd nu(nc); S.getContraintForceMagnitude(nu); std::vector<Twist> xs(ns+1); S.getTransformedLinkAcceleration(xs);
  struct J{ V3 a,o,ad,od; bool rot; int seg; double rotor; }; std::vector<J> js; { int k=0; V3 w=v3(0,0,0); for(int i=0;i<ns;i++) if(c.s[i].j.moving()){ P A=c.pose(q,i); J j; j.a=c.s[i].j.sc*mul(A.R,c.s[i].j.u); j.o=A.p+mul(A.R,c.s[i].j.o); j.rot=c.s[i].j.rot(); j.seg=i; j.rotor=d.rotor[i]; j.ad=cross(w,j.a); j.od=v3(0,0,0); for(int b=0;b<k;b++) j.od=j.od+qd[b]*(js[b].rot?cross(js[b].a,j.o-js[b].o):js[b].a); if(j.rot) w=w+qd[k]*j.a; js.push_back(j); k++; } }
  std::vector<double> tau(n,0.0); for(int i=0;i<n;i++) tau[i]=js[i].rotor*qdd(i)-ffq[i];
  for(int s=0;s<ns;s++){ P T=c.pose(q,s+1); V3 cog=T.p+mul(T.R,d.I[s].c),w=v3(0,0,0),al=r0; int m=c.before(s+1);
    auto acc=[&](V3 p){ V3 v=v3(0,0,0),a=cross(r0,p); for(int j=0;j<m;j++) v=v+qd[j]*(js[j].rot?cross(js[j].a,p-js[j].o):js[j].a); for(int j=0;j<m;j++) a=a+(js[j].rot?qdd(j)*cross(js[j].a,p-js[j].o)+qd[j]*(cross(js[j].ad,p-js[j].o)+cross(js[j].a,v-js[j].od)):qdd(j)*js[j].a+qd[j]*js[j].ad); return std::make_pair(v,a); };
    for(int j=0;j<m;j++) if(js[j].rot){ w=w+qd[j]*js[j].a; al=al+qdd(j)*js[j].a+qd[j]*js[j].ad; }
    M3 Iw=mul(mul(T.R,d.I[s].I),tr(T.R)); V3 F=d.I[s].m*(acc(cog).second-d.g),N=mul(Iw,al)+cross(w,mul(Iw,w)),Fe=f[s].v,Ne=f[s].w; if(s==ns-1) for(int k=0;k<nc;k++){ Twist a=alfa.getColumn(k); Fe=Fe-nu(k)*of(a.vel); Ne=Ne-nu(k)*of(a.rot); }
    for(int j=0;j<m;j++){ V3 vc=js[j].rot?cross(js[j].a,cog-js[j].o):js[j].a,vt=js[j].rot?cross(js[j].a,T.p-js[j].o):js[j].a; tau[j]=tau[j]+dot(vc,F)-dot(vt,Fe); if(js[j].rot) tau[j]=tau[j]+dot(js[j].a,N-Ne); }
    auto va=acc(T.p); Tw x={va.second-cross(w,va.first)-d.g,al}; eq(idx("link acceleration",s+1),xs[s+1],x,1e-3);
    if(s==ns-1&&RES.size()==1&&REG) for(int k=0;k<nc;k++){ Twist a=alfa.getColumn(k); double y=dot(of(a.vel),x.v)+dot(of(a.rot),x.w),r=0; for(int l=0;l<nc;l++) r=r+RES[0](k,l)*nu(l); eq(idx("constraint",k),y-beta(k),r,1e-4); } }
  for(int i=0;i<n;i++) eq(idx("equation of motion",i),tau[i],0,1e-4); vx::reach("solved"); }
VX_CASE(arm7){ static const int t[]={2,1,2,1,2,1,2}; frozen(posed(t,7),1,6); }
VX_CASE(arm8_mixed){ static const int t[]={5,2,3,4,6,0,5,3,4}; frozen(posed(t,9),1,3); }
VX_CASE(arm4_two_constraints){ static const int t[]={2,1,6,0,5}; frozen(posed(t,5),2,3); }
