// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia jntarray jacobian chainfksolverpos_recursive chainjnttojacsolver chainiksolvervel_pinv chainiksolvervel_wdls chainiksolvervel_pinv_nso chainiksolvervel_pinv_givens
// BOUNDS: chains of 1..3 joints of all types with any requested twist, weights, damping, thresholds and any factors the decomposition may return (its contract is decided by C28), 6- and 7-joint gantries with singular values on either side of the threshold; the Maciejewski based solver end to end on gantries of 1..7 joints with axis-aligned columns of any scale, including zero; the seven-axis revolute arm at symbolic positions for the pseudo-inverse, damped and null-space solvers
#include "chn.h"
#include <utilities/svd_eigen_HH.hpp>
#include <utilities/svd_HH.hpp>
#include <chainiksolvervel_pinv.hpp>
#include <chainiksolvervel_wdls.hpp>
#include <chainiksolvervel_pinv_nso.hpp>
#include <chainiksolvervel_pinv_givens.hpp>
using namespace KDL; using namespace kx; typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
// Stand-in for the decompositions: the factors in FU, FS, FV; remembers what it was asked to decompose.
static MX ASKED,FU,FV; static VX FS; static int RET,LIMIT; static int CALLS;
namespace KDL{
__attribute__((weak)) int svd_eigen_HH(const MX&A,MX&U,VX&S,MX&V,VX&,int maxiter,double){ ASKED=A; LIMIT=maxiter; CALLS++; if(RET==0){ U=FU; S=FS; V=FV; } return RET; }
__attribute__((weak)) SVD_HH::SVD_HH(const Jacobian&j):tmp(j.columns()){} __attribute__((weak)) SVD_HH::~SVD_HH(){}
__attribute__((weak)) int SVD_HH::calculate(const Jacobian&J,std::vector<JntArray>&U,JntArray&w,std::vector<JntArray>&v,int maxiter){ ASKED=J.data; LIMIT=maxiter; CALLS++; if(RET==0){ vx::check("decomposition storage",U.size()==6&&v.size()==J.columns()&&w.rows()==J.columns()&&tmp.rows()==J.columns()); for(int i=0;i<6;i++) for(int j=0;j<FU.cols();j++) U[i](j)=FU(i,j); for(int i=0;i<FV.rows();i++) for(int j=0;j<FV.cols();j++) v[i](j)=FV(i,j); for(int j=0;j<FS.rows();j++) w(j)=FS(j); } return RET; } }
static MX symm(const string&n,int r,int c){ MX m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=vx::real(idx(n,i,j)); return m; }
static MX mm(const MX&a,const MX&b){ MX r(a.rows(),b.cols()); for(int i=0;i<a.rows();i++) for(int j=0;j<b.cols();j++){ double s=0; for(int k=0;k<a.cols();k++) s=s+a(i,k)*b(k,j); r(i,j)=s; } return r; }
static MX tp(const MX&a){ MX r(a.cols(),a.rows()); for(int i=0;i<a.rows();i++) for(int j=0;j<a.cols();j++) r(j,i)=a(i,j); return r; }
static void eqm(const string&l,const MX&a,const MX&b,double tol=1e-5){ vx::check(l+" size",a.rows()==b.rows()&&a.cols()==b.cols()); for(int i=0;i<a.rows();i++) for(int j=0;j<a.cols();j++) eq(idx(l+"(",i)+idx(",",j)+")",a(i,j),b(i,j),tol); }
static SC mk(int n,const int*types,int nt,bool sc,int tip){ SC c; for(int i=0;i<n;i++){ SS s; s.j=mkj(idx("j",i),types?types[vx::choose(idx("type",i),nt)]:vx::choose(idx("type",i),9),sc); s.tip=mktip(idx("t",i),tip); c.s.push_back(s); } return c; }
// a gantry: joints along/about the base axes with fixed numbers as positions (the decomposition is what varies)
static SC gantry(int n){ SC c; for(int i=0;i<n;i++){ SS s; s.j=mkj(idx("j",i),i%6<3?3+i%3:i%3,false); s.j.sc=1; s.tip.R=eye(); s.tip.p=v3(0,0,0); c.s.push_back(s); } return c; }
static MX jac(const SC&c,const std::vector<double>&q){ int n=c.nj(),m=c.s.size(); MX J(6,n); for(int j=0;j<n;j++){ Tw t=c.col(q,j,m); for(int i=0;i<3;i++){ J(i,j)=t.v[i]; J(3+i,j)=t.w[i]; } } return J; }
static VX tv(const Twist&t){ VX r(6); for(int i=0;i<3;i++){ r(i)=t.vel[i]; r(3+i)=t.rot[i]; } return r; }
// any factors; for more than two joints the factors are sparse: the first columns are a rotated pair, the rest unit vectors
static void factors(int n,bool big){ FU=MX::Zero(6,n); FV=MX::Zero(n,n); FS=VX::Zero(n); if(!big||n<2){ FU=symm("U",6,n); FV=symm("V",n,n); } else { for(int i=0;i<n;i++){ if(i<6) FU((i+1)%6,i)=1; FV((n-1-i),i)=1; } double u=vx::real("u"),v=vx::real("v"); int a=n<6?0:n-2,b=a+1; FU((a+1)%6,a)=u; if(b<6){ FU((a+1)%6,b)=vx::real("u2"); FU((b+1)%6,a)=vx::real("u3"); } FV(n-1-a,b)=v; FV(n-1-b,a)=vx::real("v2"); }
  for(int i=0;i<n;i++){ double s=vx::real_s(idx("S",i),0.01,3); vx::assume_le(0,s); FS(i)=s; } }
static MX mcol(const VX&v){ MX m(v.size(),1); for(int i=0;i<v.size();i++) m(i,0)=v(i); return m; }
// expected count of dropped directions
static int below(double eps,int from=0){ int z=0; for(int i=from;i<FS.size();i++) if(FS(i)<eps) z++; return z; }
static void order(int n,int keep,double eps){ for(int i=1;i<n;i++) vx::assume_le(FS(i),FS(i-1)); for(int i=0;i<keep;i++) vx::assume_le(eps,FS(i)); }
// ---------------- pseudo-inverse
static void pinv_case(const SC&c,bool big,int keep){ Chain C=c.chain(); int n=c.nj(); double eps=vx::real_s("eps",1e-3,1); vx::assume_lt(0,eps); ChainIkSolverVel_pinv S(C,eps,77); auto q=svq("q",n); Twist t=stwist("v"); JntArray out(n); for(int i=0;i<n;i++) out(i)=vx::real(idx("old",i)); RET=0; factors(n,big); if(big) order(n,keep,eps);
  int r=S.CartToJnt(ja(q),t,out); eqm("decomposes the Jacobian",ASKED,jac(c,q)); vx::check("iteration limit",LIMIT==77); int z=0; VX si(n); for(int i=0;i<n;i++) if(FS(i)<eps){ si(i)=0; z++; } else si(i)=1/FS(i);
  MX ut=mm(tp(FU),mcol(tv(t))); for(int i=0;i<n;i++) ut(i,0)=ut(i,0)*si(i); MX e=mm(FV,ut); for(int i=0;i<n;i++) eq(idx("rate",i),out(i),e(i,0),1e-5); vx::check("dropped directions counted",(int)S.getNrZeroSigmas()==z); bool sing=z>std::max(0,n-6); vx::check("degraded is reported",r==(sing?ChainIkSolverVel_pinv::E_CONVERGE_PINV_SINGULAR:SolverI::E_NOERROR)&&S.getError()==r&&S.getSVDResult()==0); vx::reach(sing?"singular":"regular"); }
VX_CASE(pinv1){ pinv_case(mk(1,0,9,true,1),false,0); }
VX_CASE(pinv2){ pinv_case(mk(2,0,9,true,2),false,0); }
VX_CASE(pinv3){ int t[]={0,7,4}; pinv_case(mk(3,t,3,false,2),true,0); }
VX_CASE(pinv6){ pinv_case(gantry(6),true,4); }
VX_CASE(pinv7){ pinv_case(gantry(7),true,5); }
VX_CASE(pinv8){ pinv_case(gantry(8),true,5); }
template<class S> static void refuses(S&s,int n,int svdret){ RET=svdret; factors(n,true); JntArray out(n); for(int i=0;i<n;i++) out(i)=7; vx::check("failed decomposition is an error",s.CartToJnt(JntArray(n),Twist(Vector(1,2,3),Vector(4,5,6)),out)==SolverI::E_SVD_FAILED&&s.getError()==SolverI::E_SVD_FAILED&&s.getSVDResult()==svdret); for(int i=0;i<n;i++) eq("failed decomposition does not move",out(i),0); RET=0; }
template<class S> static void sizes(S&s,int n){ int a=vx::choose("q",3),b=vx::choose("qdot",3); a+=n-1; b+=n-1; if(a==n&&b==n) return; JntArray out(b); for(int i=0;i<b;i++) out(i)=7; CALLS=0; vx::check("wrong sizes are refused",s.CartToJnt(JntArray(a),Twist::Zero(),out)==SolverI::E_SIZE_MISMATCH&&s.getError()==SolverI::E_SIZE_MISMATCH&&CALLS==0); for(int i=0;i<b;i++) eq("untouched",out(i),7); }
template<class S> static void notimpl(S&s,int n){ JntArrayVel o(n); vx::check("velocity-carrying form is not implemented",s.CartToJnt(JntArray(n),FrameVel(),o)==SolverI::E_NOT_IMPLEMENTED&&s.getError()==SolverI::E_NOT_IMPLEMENTED); }
VX_CASE(refusals){ int n=1+vx::choose("n",2); SC c=gantry(n); Chain C=c.chain(); int k=vx::choose("solver",4); int e=vx::choose("ret",2)?-2:3;
  if(k==0){ ChainIkSolverVel_pinv s(C); refuses(s,n,e); sizes(s,n); notimpl(s,n); }
  if(k==1){ ChainIkSolverVel_wdls s(C); refuses(s,n,e); sizes(s,n); notimpl(s,n); VX so(n+1); vx::check("wrong sigma size",s.getSigma(so)==SolverI::E_SIZE_MISMATCH); int r=vx::choose("r",8),cc=vx::choose("c",8); int was=s.setWeightTS(MX::Identity(r,cc)); vx::check("task weights: only 6x6",was==(r==6&&cc==6?SolverI::E_NOERROR:SolverI::E_SIZE_MISMATCH)&&s.getError()==was); was=s.setWeightJS(MX::Identity(r,cc)); vx::check("joint weights: only nj x nj",was==(r==n&&cc==n?SolverI::E_NOERROR:SolverI::E_SIZE_MISMATCH)&&s.getError()==was); }
  if(k==2){ JntArray w(n),o(n); ChainIkSolverVel_pinv_nso s(C,o,w); refuses(s,n,e); sizes(s,n); notimpl(s,n); JntArray bad(n+1); vx::check("wrong weights",s.setWeights(bad)==SolverI::E_SIZE_MISMATCH&&s.setOptPos(bad)==SolverI::E_SIZE_MISMATCH&&s.getWeights().rows()==(unsigned)n&&s.getOptPos().rows()==(unsigned)n); ChainIkSolverVel_pinv_nso d(C,bad,w); JntArray out(n); vx::check("wrong optimum",d.CartToJnt(JntArray(n),Twist::Zero(),out)==SolverI::E_SIZE_MISMATCH); }
  if(k==3){ ChainIkSolverVel_pinv_givens s(C); sizes(s,n); notimpl(s,n); } vx::reach("end"); }
// ---------------- weighted damped least squares
static void wdls_case(const SC&c,bool big,int keep,int weights){ Chain C=c.chain(); int n=c.nj(); double eps=vx::real_s("eps",1e-3,1),lam=vx::flip("damped")?vx::real_s("lambda",0.01,1):0.0; vx::assume_lt(0,eps); if(vx::is_sym(lam)) vx::assume_lt(0,lam); ChainIkSolverVel_wdls S(C,0.3,5); if(vx::flip("set twice")){ S.setLambda(9); S.setEps(9); } S.setLambda(lam); S.setEps(eps); S.setMaxIter(77); MX Mq=MX::Identity(n,n),Mx=MX::Identity(6,6);
  if(weights==1){ Mq=symm("Mq",n,n); Mx=symm("Mx",6,6); for(int i=0;i<n;i++) for(int j=0;j<i;j++) Mq(i,j)=Mq(j,i); for(int i=0;i<6;i++) for(int j=0;j<i;j++) Mx(i,j)=Mx(j,i); } if(weights==2){ for(int i=0;i<n;i++) Mq(i,i)=vx::real(idx("mq",i)); for(int i=0;i<6;i++) Mx(i,i)=vx::real(idx("mx",i)); Mx(0,4)=Mx(4,0)=vx::real("mx04"); } if(weights) vx::check("weights accepted",S.setWeightJS(Mq)==0&&S.setWeightTS(Mx)==0);
  auto q=svq("q",n); Twist t=stwist("v"); JntArray out(n); for(int i=0;i<n;i++) out(i)=vx::real(idx("old",i)); RET=0; factors(n,big); if(big) order(n,keep,eps);
  int r=S.CartToJnt(ja(q),t,out); eqm("decomposes the weighted Jacobian",ASKED,mm(mm(Mx,jac(c,q)),Mq)); vx::check("iteration limit",LIMIT==77);
  double smin=n>=6?FS(5):0.0,l=0; if(smin<eps) l=sqrt(1-(smin/eps)*(smin/eps))*lam; int z=0; MX w=mm(Mx,mcol(tv(t))),ut=mm(tp(FU),w); for(int i=0;i<n;i++){ double s=FS(i); if(i>=6) ut(i,0)=0; if(s<eps){ z++; double d=s*s+l*l; if(d==0) ut(i,0)=0; else ut(i,0)=ut(i,0)*s/d; } else ut(i,0)=ut(i,0)/s; } MX e=mm(Mq,mm(FV,ut)); for(int i=0;i<n;i++) eq(idx("rate",i),out(i),e(i,0),1e-4);
  eq("smallest singular value",S.getSigmaMin(),smin); if(n) eq("scaled damping",S.getLambdaScaled(),l,1e-5); eq("damping",S.getLambda(),lam); eq("threshold",S.getEps(),eps); VX so(n); vx::check("sigma",S.getSigma(so)==0); for(int i=0;i<n;i++) eq("sigma",so(i),FS(i)); vx::check("dropped directions counted",(int)S.getNrZeroSigmas()==z); bool sing=z>std::max(0,n-6);
  vx::check("degraded is reported",r==(sing?ChainIkSolverVel_wdls::E_CONVERGE_PINV_SINGULAR:SolverI::E_NOERROR)&&S.getSVDResult()==0); vx::reach(sing?"singular":"regular"); }
VX_CASE(wdls1){ wdls_case(mk(1,0,9,true,2),false,0,1); }
VX_CASE(wdls2){ int t[]={0,7,8}; wdls_case(mk(2,t,3,false,2),false,0,2); }
VX_CASE(wdls3){ wdls_case(gantry(3),true,0,2); }
VX_CASE(wdls6){ wdls_case(gantry(6),true,4,2); }
VX_CASE(wdls7){ wdls_case(gantry(7),true,5,2); }
// ---------------- null-space optimisation
static void nso_case(const SC&c,bool big,int keep){ Chain C=c.chain(); int n=c.nj(); double eps=vx::real_s("eps",1e-3,1),al=vx::real("alpha"); vx::assume_lt(0,eps); auto q=svq("q",n),w=svq("w",n),o=svq("o",n); if(n>3) for(int i=2;i<n;i++) o[i]=q[i]; std::vector<double> bad(n,9.0); bool set=vx::flip("by setters"); ChainIkSolverVel_pinv_nso S(C,ja(set?bad:o),ja(set?bad:w),eps,77,set?9:al); if(set){ vx::check("set",S.setWeights(ja(w))==0&&S.setOptPos(ja(o))==0&&S.setAlpha(al)==0); } for(int i=0;i<n;i++){ eq("weights",S.getWeights()(i),w[i]); eq("optimum",S.getOptPos()(i),o[i]); } eq("gain",S.getAlpha(),al);
  Twist t=stwist("v"); JntArray out(n); for(int i=0;i<n;i++) out(i)=vx::real(idx("old",i)); RET=0; factors(n,big); order(n,keep,eps); vx::check("code",S.CartToJnt(ja(q),t,out)==0&&S.getError()==0); eqm("decomposes the Jacobian",ASKED,jac(c,q)); vx::check("iteration limit",LIMIT==77);
  VX si(n); for(int i=0;i<n;i++) if(FS(i)<eps) si(i)=0; else si(i)=1/FS(i); auto sc=[&](MX m,const VX&s){ for(int i=0;i<n;i++) m(i,0)=m(i,0)*s(i); return m; }; MX e=mm(FV,sc(mm(tp(FU),mcol(tv(t))),si)); double g=0,A=0; for(int i=0;i<n;i++){ double d=q[i]-o[i]; g=g+0.5*w[i]*d*d; A=A+w[i]*w[i]*d*d; }
  if(A>1e-9){ MX jc(n,1); for(int i=0;i<n;i++) jc(i,0)=w[i]*(q[i]-o[i])/A; MX x=mm(FV,sc(mm(tp(FU),mm(FU,sc(mm(tp(FV),jc),FS))),si)); for(int i=0;i<n;i++) e(i,0)=e(i,0)-2*al*g*(jc(i,0)-x(i,0)); vx::reach("null space motion"); } for(int i=0;i<n;i++) eq(idx("rate",i),out(i),e(i,0),1e-4); }
VX_CASE(nso1){ nso_case(mk(1,0,9,true,2),false,0); }
VX_CASE(nso2){ nso_case(gantry(2),false,0); }
VX_CASE(nso3){ nso_case(gantry(3),true,0); }
VX_CASE(nso7){ nso_case(gantry(7),true,6); }
VX_CASE_THOROUGH(nso8){ nso_case(gantry(8),true,5); }
// ---------------- Maciejewski-based solver, end to end on axis-aligned prismatic columns
VX_CASE(givens){ int n=1+vx::choose("n",2); if(n==2&&vx::flip("wide")) n=7; SC c; int sh=vx::choose("first axis",3); for(int i=0;i<n;i++){ SS s; s.j=mkj(idx("j",i),n==7?(i<3?3+i:i<6?3:3):3+(i+sh)%3,false); s.tip.R=eye(); s.tip.p=v3(0,0,0); if(n<7||i<2){ s.j.sc=vx::real(idx("scale",i)); if(vx::flip(idx("zero scale",i))) s.j.sc=0.0; else { vx::assume_lt(1e-3,fabs(s.j.sc)); vx::assume_lt(fabs(s.j.sc),1e3); } } else if(i>2) s.j.sc=0; c.s.push_back(s); }
  Chain C=c.chain(); ChainIkSolverVel_pinv_givens S(C); auto q=svq("q",n); JntArray out(n); int rep=n==7?1:1+vx::choose("calls",2); for(int k=0;k<rep;k++){ Twist t=stwist(idx("v",k)); vx::must_terminate(true); vx::check("code",S.CartToJnt(ja(q),t,out)==0&&S.getError()==0); vx::must_terminate(false); VX v=tv(t); MX J=jac(c,q); VX res(6); for(int i=0;i<6;i++){ res(i)=v(i); for(int j=0;j<n;j++) res(i)=res(i)-J(i,j)*out(j); }
    for(int j=0;j<n;j++){ double d=0; for(int i=0;i<6;i++) d=d+J(i,j)*res(i); eq(idx("least squares",j),d,0,1e-4); if(!vx::is_sym(c.s[j].j.sc)&&c.s[j].j.sc==0) eq(idx("minimal norm",j),out(j),0,1e-6); } } }
// ---------------- the usual seven-axis revolute arm
VX_CASE(arm_pinv){ pinv_case(arm7(),true,5); }
VX_CASE(arm_wdls){ wdls_case(arm7(),true,5,2); }
VX_CASE(arm_nso){ nso_case(arm7(),true,6); }
