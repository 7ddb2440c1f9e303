// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia articulatedbodyinertia jntarray jntspaceinertiamatrix jacobian chainfksolverpos_recursive chainjnttojacsolver chainidsolver_recursive_newton_euler chaindynparam chainexternalwrenchestimator
// BOUNDS: chains of 1..2 segments over the stated joint types, two successive estimates with different states after initialisation (and without it), every mass, centre of gravity, rotor inertia, gravity, state, measured torque, sample frequency, gain and filter constant, any factors the decomposition may return (its contract is decided by C28) and its failure; arms of three and nine joints with given geometry and inertias
#include "dyn.h"
#include <utilities/svd_eigen_HH.hpp>
#include <chainexternalwrenchestimator.hpp>
using namespace KDL; using namespace kx; typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX; typedef std::vector<double> VD;
static MX ASKED,FU,FV; static VX FS; static int RET,LIMIT;
namespace KDL{ __attribute__((weak)) int svd_eigen_HH(const MX&A,MX&U,VX&S,MX&V,VX&,int maxiter,double){ ASKED=A; LIMIT=maxiter; vx::check("decomposition storage",U.rows()==A.rows()&&U.cols()==A.cols()&&S.size()==A.cols()&&V.rows()==A.cols()&&V.cols()==A.cols()); if(RET==0){ U=FU; S=FS; V=FV; } return RET; } }
static VD mv(const std::vector<VD>&M,const VD&v){ VD r(v.size(),0.0); for(size_t i=0;i<v.size();i++) for(size_t k=0;k<v.size();k++) r[i]=r[i]+M[i][k]*v[k]; return r; }
static double pos(const string&n){ double x=vx::real_s(n,0.2,3); vx::assume_lt(0,x); return x; }
struct Obs{ DC d; double dt,gain,filt; std::vector<VD> Mp; VD p0,I,r; };
static VD step(Obs&o,const VD&q,const VD&qd,const VD&tau){ int n=q.size(); auto M=o.d.M(q); auto c=o.d.cor(q,qd); auto g=o.d.grav(q); VD p=mv(M,qd),est(n); std::vector<VD> D=M; for(int i=0;i<n;i++) for(int k=0;k<n;k++) D[i][k]=(M[i][k]-o.Mp[i][k])/o.dt; VD dp=mv(D,qd); for(int i=0;i<n;i++){ o.I[i]=o.I[i]+(tau[i]-g[i]-c[i]+dp[i]+o.r[i])*o.dt; est[i]=o.gain*(p[i]-o.I[i]-o.p0[i]); o.r[i]=o.filt*o.r[i]+(1-o.filt)*est[i]; } o.Mp=M; return o.r; }
static void factors(int n,double eps=0){ FU=MX::Zero(n,6); FV=MX::Zero(6,6); FS=VX::Zero(6); for(int i=0;i<n;i++) for(int j=0;j<2;j++) FU(i,j)=vx::real(idx("U",i,j)); for(int i=0;i<6;i++) for(int j=0;j<2;j++) FV(i,(j+i)%6)=vx::real(idx("V",i,j)); FS(0)=1; FS(1)=1; if(eps!=0){ FS(0)=-pos("S0"); vx::assume_lt(FS(0),-eps); FS(1)=vx::real_s("S1",-2,2); } }
// everything the estimate rests on is compared before the first failure; the wrench is the pseudo-inverse of the transposed tip Jacobian
static void wrench(const string&l,const DC&d,const VD&q,const VD&r,double eps,const Wrench&w){ int n=q.size(); P T=d.c.pose(q,d.ns()); vx::check(l+" decomposed size",ASKED.rows()==n&&ASKED.cols()==6); for(int i=0;i<n;i++){ Tw c=d.c.col(q,i,d.ns()); V3 v=mulT(T.R,c.v),o=mulT(T.R,c.w); for(int k=0;k<3;k++){ eq(l+idx(" tip Jacobian row ",i),ASKED(i,k),v[k],1e-5); eq(l+idx(" tip Jacobian row ",i),ASKED(i,3+k),o[k],1e-5); } }
  VD y(6,0.0); for(int k=0;k<6;k++){ double a=FS(k)<0?-FS(k):FS(k); if(a<eps) continue; for(int i=0;i<n;i++) y[k]=y[k]+FU(i,k)*r[i]/FS(k); } for(int i=0;i<6;i++){ double e=0; for(int k=0;k<6;k++) e=e+FV(i,k)*y[k]; eq(l+idx(" wrench ",i),w(i),e,1e-4); } }
static void run(const DC&d,int calls,bool init,bool grown=false){ int n=d.nj(); bool calls1=calls>1||grown; double dt=1/pos("frequency"),gain=pos("gain"),filt=vx::real_s("filter",0.1,0.9),eps=pos("eps"); vx::generic_div(true); Chain C; DC part=d; if(grown){ for(int i=0;i+1<d.ns();i++) C.addSegment(d.c.s[i].seg(idx("s",i),d.I[i].rbi(),d.rotor[i])); } else C=d.chain(); ChainExternalWrenchEstimator E(C,kv(d.g),1/dt,gain,filt,n==1&&!calls1&&vx::flip("default threshold")?(eps=0.00001,0.00001):eps,33);
  if(grown){ int m=C.getNrOfJoints(); auto a=svq("before q",m),b=svq("before qd",m); Wrench w; if(m&&init) E.setInitialMomentum(ja(a),ja(b)); C.addSegment(d.c.s.back().seg(idx("s",d.ns()-1),d.I.back().rbi(),d.rotor.back())); vx::check("changed chain refused",E.JntToExtWrench(ja(a),ja(b),ja(b),w)==SolverI::E_NOT_UP_TO_DATE&&E.getError()==SolverI::E_NOT_UP_TO_DATE); E.updateInternalDataStructures(); }
  Obs o; o.d=d; o.dt=dt; o.gain=gain; o.filt=filt; o.p0=o.I=o.r=VD(n,0.0); o.Mp=std::vector<VD>(n,VD(n,0.0));
  if(init){ auto q=svq("q",n),qd=svq("qd",n); if(n==1&&vx::flip("initialised while running")){ RET=0; factors(n); Wrench w; auto a=svq("junk",n); E.JntToExtWrench(ja(a),ja(a),ja(a),w); } vx::check("initialised",E.setInitialMomentum(ja(q),ja(qd))==0&&E.getError()==0); o.Mp=d.M(q); o.p0=mv(o.Mp,qd); JntArray t(n); E.getEstimatedJntTorque(t); for(int i=0;i<n;i++) eq(idx("no torque estimated yet ",i),t(i),0.0); }
  for(int k=0;k<calls;k++){ auto q=svq(idx("q'",k)+".",n),qd=svq(idx("qd'",k)+".",n),tau=svq(idx("tau",k)+".",n); RET=0; factors(n,k==0?eps:0); Wrench w(svec("old"),svec("old2")); vx::check("estimate",E.JntToExtWrench(ja(q),ja(qd),ja(tau),w)==0&&E.getError()==0); VD r=step(o,q,qd,tau); JntArray t(n); E.getEstimatedJntTorque(t); for(int i=0;i<n;i++) eq(idx(idx("estimate ",k)+" joint torque ",i),t(i),r[i],1e-3); if(k==0){ vx::check("iteration limit handed down",LIMIT==33); VD rr; for(int i=0;i<n;i++) rr.push_back(t(i)); wrench(idx("estimate ",k),d,q,rr,eps,w); } }
  vx::reach("estimated"); }
static const int RX[]={3,2},TR[]={2,2};
VX_CASE(one){ run(mkd(1,0,0,true,RX,2),1,true); }
VX_CASE(one_uninitialised){ static const int t[]={8,7}; DC d=mkd(1,t,2,true,TR,1); int n=d.nj(); (void)n; run(d,1,false); }
VX_CASE(one_twice){ static const int t[]={7,4}; run(mkd(1,t,2,true,TR,1),2,true); }
VX_CASE(two){ static const int t[]={7,8,6}; run(mkd(2,t,3,true,TR,2,true,false),1,true); }
VX_CASE(grown){ static const int t[]={0,5,6}; run(mkd(2,t,3,false,TR,2,true,false),1,vx::flip("initialised"),true); }
// the true momentum: without external force and with exact states the estimate stays zero to first order: constant inertia, no gravity, exact
VX_CASE(no_contact){ DC d=mkd(1,(const int[]){8},1,true,TR,2,true,true); double dt=1/pos("frequency"); vx::generic_div(true); Chain C=d.chain(); ChainExternalWrenchEstimator E(C,kv(d.g),1/dt,pos("gain"),vx::real_s("filter",0.1,0.9)); auto q=svq("q",1),qd=svq("qd",1); E.setInitialMomentum(ja(q),ja(qd)); double a=vx::real("acceleration"); VD v=qd; RET=0; for(int k=0;k<2;k++){ VD p(1,q[0]),t(1); v[0]=v[0]+a*dt; auto M=d.M(p); auto c=d.cor(p,v); auto g=d.grav(p); t[0]=M[0][0]*a+c[0]+g[0]; factors(1); Wrench w; E.JntToExtWrench(ja(p),ja(v),ja(t),w); JntArray r(1); E.getEstimatedJntTorque(r); eq(idx("nothing touches the robot ",k),r(0),0.0,1e-6); } }
VX_CASE(refused){ DC d=mkd(2,(const int[]){7},1,false,TR,2,false,false); Chain C=d.chain(); ChainExternalWrenchEstimator E(C,kv(d.g),100,1,0.5); auto q=svq("q",2),qd=svq("qd",2),tau=svq("tau",2); E.setInitialMomentum(ja(q),ja(qd)); int w=vx::choose("which",4),s=vx::choose("size",3); s=s==2?3:s; auto bad=svq("bad",s); Wrench f(svec("old"),svec("old2")),f0=f; if(w<3){ RET=0; vx::check("wrong size",E.JntToExtWrench(ja(w==0?bad:q),ja(w==1?bad:qd),ja(w==2?bad:tau),f)==SolverI::E_SIZE_MISMATCH&&E.getError()==SolverI::E_SIZE_MISMATCH); eq("untouched",f,f0); vx::check("wrong size (initial)",w==2||E.setInitialMomentum(ja(w==0?bad:q),ja(w==1?bad:qd))==SolverI::E_SIZE_MISMATCH); JntArray t(2); E.getEstimatedJntTorque(t); for(int i=0;i<2;i++) eq(idx("estimate untouched ",i),t(i),0.0); }
  else { RET=-2; vx::check("failed decomposition",E.JntToExtWrench(ja(q),ja(qd),ja(tau),f)==SolverI::E_SVD_FAILED&&E.getError()==SolverI::E_SVD_FAILED); eq("untouched",f,f0); RET=0; C.addSegment(Segment(Joint(Joint::RotX))); vx::check("changed chain",E.JntToExtWrench(ja(q),ja(qd),ja(tau),f)==SolverI::E_NOT_UP_TO_DATE&&E.setInitialMomentum(ja(q),ja(qd))<0&&E.getError()<0); }
  for(int c: {-100,-101,-102,-103,-104,0,1,-1,-2,-3,-4,-5,-6,-7,-8}) vx::check("described",string(E.strError(c))!="UNKNOWN ERROR"); }
VX_CASE_THOROUGH(two_twice){ static const int t[]={7,8}; run(mkd(2,t,2,true,TR,2,true,true),2,true); }
// more joints than a task has degrees of freedom, and an arm of turning joints (given geometry and inertias)
VX_CASE(arm){ static const int t[]={5,2,3,4,6,3,5,3,4}; run(dynarm(t,9),1,true); }
VX_CASE(arm3){ static const int t[]={2,1,0}; run(dynarm(t,3),1,true); }
