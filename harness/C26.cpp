// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia articulatedbodyinertia jntarray jntspaceinertiamatrix chaindynparam chainidsolver_recursive_newton_euler chainfdsolver_recursive_newton_euler
// BOUNDS: chains of 0..2 segments over all 9 joint types and 3 segments over 3 types, all inertias, rotor inertias, gravity, states, torques and external wrenches with a regular inertia matrix; the linear solve is replaced by its contract A x = v (decided for the real routine by C28); integrator for 1..3 joints against an arbitrary acceleration function; arms of 3, 4 and 7 revolute and 7 to 9 mixed joints with given geometry and inertias, symbolic rotor inertias, gravity, states, torques and external wrenches
#include "dyn.h"
#include <chainidsolver_recursive_newton_euler.hpp>
#include <chainfdsolver_recursive_newton_euler.hpp>
#include <utilities/ldl_solver_eigen.hpp>
using namespace KDL; using namespace kx;
// Stand-in for the linear solver: returns arbitrary values and remembers the system, so that "x solves it" can be used as a hypothesis.
static std::vector<Eigen::MatrixXd> LA; static std::vector<Eigen::VectorXd> LV; 
namespace KDL{ __attribute__((weak)) int ldl_solver_eigen(const Eigen::MatrixXd&A,const Eigen::VectorXd&v,Eigen::MatrixXd&L,Eigen::VectorXd&D,Eigen::VectorXd&t,Eigen::VectorXd&q){ int n=A.rows(); vx::check("sizes given to the linear solver",A.cols()==n&&v.rows()==n&&L.rows()==n&&L.cols()==n&&D.rows()==n&&t.rows()==n&&q.rows()==n); LA.push_back(A); LV.push_back(v); for(int i=0;i<n;i++){ q(i)=vx::real(idx("solution",LA.size(),i)); D(i)=t(i)=0; for(int j=0;j<n;j++) L(i,j)=0; } return 0; } }
static Wrenches wr(const std::vector<Tw>&f){ Wrenches r; for(auto&x:f) r.push_back(kw(x)); return r; }
static void judge(const DC&d){ LA.clear(); LV.clear(); vx::generic_div(true); Chain C=d.chain(); int n=d.nj(); ChainFdSolver_RNE S(C,kv(d.g)); auto q=svq("q",n),qd=svq("qd",n),tau=svq("tau",n); auto f=swr("f",d.ns()); JntArray a(n),t(n); auto q2=svq("r",n),qd2=svq("rd",n); S.CartToJnt(ja(q2),ja(qd2),ja(tau),wr(f),t); LA.clear(); LV.clear();
  vx::check("code",S.CartToJnt(ja(q),ja(qd),ja(tau),wr(f),a)==0&&S.getError()==0); ChainIdSolver_RNE id(C,kv(d.g)); vx::check("id code",id.CartToJnt(ja(q),ja(qd),a,wr(f),t)==0); 
  auto M=d.M(q); auto c=d.cor(q,qd); auto g=d.grav(q); auto j=d.jtf(q,f);
  // residual of the system handed to the linear solver (zero by its contract)
  std::vector<double> res(n,0.0); if(!LA.empty()){ vx::check("one system",LA.size()==1&&LA[0].rows()==n); for(int i=0;i<n;i++){ for(int k=0;k<n;k++) res[i]=res[i]+LA[0](i,k)*a(k); res[i]=res[i]-LV[0](i); } }
  for(int i=0;i<n;i++){ eq(idx("torque reproduced",i),t(i)-tau[i],res[i],1e-4); double r=c[i]+g[i]-j[i]; for(int k=0;k<n;k++) r=r+M[i][k]*a(k); eq(idx("equation of motion",i),r-tau[i],res[i],1e-3); } }
static const int FREE[]={1,2,2}, TR[]={2,2,2,2}, RX[]={3,2,2};
VX_CASE(chain0){ judge(mkd(0,0,0,true,FREE,0)); }
VX_CASE(chain1){ judge(mkd(1,0,0,true,FREE,0)); }
VX_CASE(chain2){ judge(mkd(2,0,0,true,RX,1)); }
VX_CASE(chain2_full_inertia){ int t[]={7,8}; judge(mkd(2,t,2,true,RX,0)); }
VX_CASE(chain3){ int t[]={0,7,5,6}; judge(mkd(3,t,4,false,TR,2,true,false)); }
VX_CASE_THOROUGH(chain3_all){ judge(mkd(3,0,9,true,TR,1)); }
// the integrator, for any acceleration function of state (and any fixed torques)
struct AnyFd: ChainFdSolver_RNE{ int n; std::vector<std::vector<double>> qs,vs,as; AnyFd(const Chain&c,int n):ChainFdSolver_RNE(c,Vector::Zero()),n(n){} 
  int CartToJnt(const JntArray&q,const JntArray&v,const JntArray&,const Wrenches&,JntArray&a){ std::vector<double> x,y,z; int k=qs.size(); for(int i=0;i<n;i++){ x.push_back(q(i)); y.push_back(v(i)); z.push_back(vx::real(idx("acc",k,i))); a(i)=z[i]; } qs.push_back(x); vs.push_back(y); as.push_back(z); return 0; } };
static void rk(int n){ Chain C; AnyFd fd(C,n); auto q0=svq("q",n),v0=svq("v",n); double t=vx::real("t"),dt=vx::real("dt"); unsigned nj=n; JntArray q=ja(q0),v=ja(v0),tau=ja(svq("tau",n)),a=ja(svq("ga",n)),dq=ja(svq("gb",n)),dv=ja(svq("gc",n)),qt=ja(svq("gd",n)),vt=ja(svq("ge",n)); Wrenches f; fd.RK4Integrator(nj,t,dt,q,v,tau,f,fd,a,dq,dv,qt,vt);
  vx::check("four evaluations",fd.qs.size()==4); std::vector<std::vector<double>> kx(4),kv_(4); double h[]={0,0.5,0.5,1};
  for(int s=0;s<4;s++) for(int i=0;i<n;i++){ double x=q0[i],y=v0[i]; if(s){ x=x+h[s]*dt*kx[s-1][i]; y=y+h[s]*dt*kv_[s-1][i]; } eq(idx("stage position",s,i),fd.qs[s][i],x); eq(idx("stage velocity",s,i),fd.vs[s][i],y); kx[s].push_back(y); kv_[s].push_back(fd.as[s][i]); }
  for(int i=0;i<n;i++){ eq(idx("position",i),q(i),q0[i]+dt*(kx[0][i]+2*kx[1][i]+2*kx[2][i]+kx[3][i])/6); eq(idx("velocity",i),v(i),v0[i]+dt*(kv_[0][i]+2*kv_[1][i]+2*kv_[2][i]+kv_[3][i])/6); } }
VX_CASE(rk4_1){ rk(1); }
VX_CASE(rk4_3){ rk(3); }
// the solver integrates its own dynamics, holding torques and wrenches
struct Rec: ChainFdSolver_RNE{ double tau; bool same; std::vector<Tw> f; Rec(const Chain&c,double t,const std::vector<Tw>&f):ChainFdSolver_RNE(c,Vector::Zero()),tau(t),same(true),f(f){} int CartToJnt(const JntArray&q,const JntArray&v,const JntArray&t,const Wrenches&w,JntArray&a){ eq("torque",t(0),tau); eqw("wrench",w.at(0),f[0]); a(0)=q(0); return 0; } };
VX_CASE(rk4_arguments){ Chain C; C.addSegment(Segment(Joint(Joint::RotZ))); auto f=swr("f",1); double tq=vx::real("tau"),dt=vx::real("dt"),ti=vx::real("t"); Rec S(C,tq,f); unsigned nj=1; JntArray q(1),v(1),tau(1),a(1),dq(1),dv(1),qt(1),vt(1); tau(0)=tq; q(0)=vx::real("q"); v(0)=vx::real("v"); Wrenches w=wr(f); S.RK4Integrator(nj,ti,dt,q,v,tau,w,S,a,dq,dv,qt,vt); eq("torque kept",tau(0),tq); }
// more joints than a task has degrees of freedom; arms of turning joints (given geometry and inertias)
VX_CASE(arm){ judge(dynarm(arm())); }
VX_CASE(arm3){ static const int t[]={2,1,0}; judge(dynarm(t,3)); }
VX_CASE(arm4){ static const int t[]={2,1,1,2}; judge(dynarm(t,4)); }
VX_CASE(arm7){ static const int t[]={2,1,2,1,2,1,2}; judge(dynarm(t,7)); }
