// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia jntarray jacobian
// BOUNDS: kinematics: chains of 1..2 segments over all 9 joint types, 3 segments over 4 types, fixed joints anywhere, symbolic scales, offsets, origins, tips and positions; solving: chains of one and two moving joints (with a fixed one), any goal translation, any weights and tolerance, any factors the singular value decomposition may return, one and two iterations with rejected steps and any joint tolerance; the decomposition itself (Eigen) is replaced by its interface; kinematics of arms of 7 to 9 joints with given geometry
#include "chn.h"
#include <Eigen/Core>
#include <Eigen/SVD>
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
static std::vector<MX> ASKED; static std::vector<MX> FU,FV; static std::vector<VX> FS;
// stand-in for the decomposition used by the solver: prescribed factors, remembers what it was asked
template<> Eigen::JacobiSVD<MX>& Eigen::JacobiSVD<MX>::compute(const MX&m,unsigned o){ size_t k=ASKED.size(); ASKED.push_back(m); allocate(m.rows(),m.cols(),o); int n=m.cols(),d=n<6?n:6; MX U=MX::Zero(6,d),V=MX::Zero(n,d); VX S=VX::Zero(d); if(!FU.empty()){ size_t i=k<FU.size()?k:FU.size()-1; U=FU[i]; V=FV[i]; S=FS[i]; } m_matrixU=U; m_matrixV=V; m_singularValues=S; m_nonzeroSingularValues=d; m_isInitialized=true; return *this; }
#include <chainiksolverpos_lma.cpp>
using namespace KDL; using namespace kx;
static SC mk(int n,const int*types,int nt,bool sc,int tip){ SC c; for(int i=0;i<n;i++){ SS s; s.j=mkj(idx("j",i),types?types[vx::choose(idx("type",i),nt)]:vx::choose(idx("type",i),9),sc); s.tip=mktip(idx("t",i),tip); c.s.push_back(s); } return c; }
static void kin(const SC&c){ if(c.nj()==0) return; Chain C=c.chain(); bool grown=vx::flip("grown"); Chain G; if(grown) G.addSegment(Segment(Joint(Joint::RotX))); ChainIkSolverPos_LMA S(grown?G:C); if(grown){ G=C; S.updateInternalDataStructures(); } int n=c.nj(),m=c.s.size(); auto q=svq("q",n),p=svq("old",n); VX vq(n),vp(n); for(int i=0;i<n;i++){ vq(i)=q[i]; vp(i)=p[i]; } S.compute_fwdpos(vp); S.compute_jacobian(vp); S.compute_fwdpos(vq); eq("pose",S.T_base_head,c.pose(q,m)); S.compute_jacobian(vq); vx::check("Jacobian size",S.jac.rows()==6&&S.jac.cols()==n); P T=c.pose(q,m); for(int j=0;j<n;j++){ Tw t=twist_wrt(T,q[j]); for(int i=0;i<3;i++){ eq(idx(idx("Jacobian column ",j)+" vel",i),S.jac(i,j),t.v[i],1e-4); eq(idx(idx("Jacobian column ",j)+" rot",i),S.jac(3+i,j),t.w[i],1e-4); } } eq("pose kept",S.T_base_head,c.pose(q,m)); }
VX_CASE(kinematics1){ kin(mk(1,0,9,true,1)); }
VX_CASE(kinematics2){ kin(mk(2,0,9,true,3)); }
VX_CASE(kinematics3){ int t[]={0,7,6,4}; kin(mk(3,t,4,true,2)); }
VX_CASE(kinematics_arm){ kin(arm()); }
VX_CASE(kinematics_arm7){ kin(arm7()); }
static Eigen::Matrix<double,6,1> weights(bool sym){ Eigen::Matrix<double,6,1> L; L<<1,1,1,0.01,0.01,0.01; if(sym) for(int i=0;i<6;i++) L(i)=vx::real_s(idx("L",i),0.1,3); return L; }
static double norm(const Twist&d,const Eigen::Matrix<double,6,1>&L){ double s=0; for(int i=0;i<6;i++) s=s+L(i)*d[i]*L(i)*d[i]; return s; }
static SC simple(int k){ SC c; SS s; if(k==0||k==2){ s.j=mkj("a",3,true); s.tip=mktip("ta",2); c.s.push_back(s); } if(k==1){ s.j=mkj("f",6,false); s.tip=mktip("tf",2); c.s.push_back(s); s.j=mkj("b",4,true); s.tip=mktip("tb",2); c.s.push_back(s); } if(k==2){ s.j=mkj("b",5,true); s.tip=mktip("tb",2); c.s.push_back(s); } return c; }
static void weighted_jac(const string&l,const MX&J,const SC&c,const std::vector<double>&q,const Eigen::Matrix<double,6,1>&L){ int n=c.nj(),m=c.s.size(); for(int j=0;j<n;j++){ Tw t=c.col(q,j,m); for(int i=0;i<3;i++){ eq(idx(idx(l+" column ",j)+" vel",i),J(i,j),L(i)*t.v[i],1e-5); eq(idx(idx(l+" column ",j)+" rot",i),J(3+i,j),L(3+i)*t.w[i],1e-5); } } }
static void reset(){ ASKED.clear(); FU.clear(); FV.clear(); FS.clear(); }
static void diagnostics(const ChainIkSolverPos_LMA&S,const SC&c,const JntArray&q,const Frame&goal,const Eigen::Matrix<double,6,1>&L){ std::vector<double> v; for(unsigned i=0;i<q.rows();i++) v.push_back(q(i)); Twist d=diff(kf(c.pose(v,c.s.size())),goal); eq("reported weighted difference",S.lastDifference*S.lastDifference,norm(d,L),1e-5); V3 t=of(d.vel),r=of(d.rot); eq("reported translation difference",S.lastTransDiff*S.lastTransDiff,dot(t,t),1e-5); eq("reported rotation difference",S.lastRotDiff*S.lastRotDiff,dot(r,r),1e-5); }
// a guess within the tolerance is returned as it is, a guess outside is not taken for a solution
VX_CASE(guess){ reset(); int k=vx::choose("chain",3); SC c=simple(k); Chain C=c.chain(); bool dflt=vx::flip("default weights"); auto L=weights(!dflt); double eps=vx::real_s("eps",0.5,3); vx::assume_lt(0,eps); int n=c.nj(); ChainIkSolverPos_LMA*S=dflt?new ChainIkSolverPos_LMA(C,eps,0):new ChainIkSolverPos_LMA(C,L,eps,0); auto q=svq("q",n); JntArray out(n); for(int i=0;i<n;i++) out(i)=vx::real(idx("old",i)); Frame goal(svec("goal")); Twist d=diff(kf(c.pose(q,c.s.size())),goal); int rc=S->CartToJnt(ja(q),goal,out); vx::check("latest error remembered",rc==S->getError()); double e=norm(d,L); if(rc==SolverI::E_NOERROR){ vx::check_le("within the tolerance",sqrt(e),eps); vx::check("no iteration",S->lastNrOfIter==0); vx::reach("at the goal"); } else { vx::check("iteration limit reported",rc==SolverI::E_MAX_ITERATIONS_EXCEEDED); vx::check_le("not within the tolerance",eps,sqrt(e)); vx::reach("elsewhere"); } for(int i=0;i<n;i++) eq(idx("guess returned ",i),out(i),q[i]); diagnostics(*S,c,out,goal,L); for(auto&A:ASKED) weighted_jac("decomposes the weighted Jacobian",A,c,q,L); delete S; }
static MX symm(const string&n,int r,int c){ MX m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=vx::real(idx(n,i,j)); return m; }
// iterations with any decomposition: success only within the tolerance, never further from the goal than the guess
static void iterate(int k,int maxit,bool anyfactors,bool gsym,bool wrongway=false){ reset(); SC c=simple(k); if(!anyfactors){ for(auto&x:c.s) x.j.sc=x.j.moving()?(x.j.k==5?-0.5:2):1; } Chain C=c.chain(); int n=c.nj(); auto L=weights(false); for(int i=0;i<maxit;i++){ MX U=MX::Zero(6,n),V=MX::Zero(n,n); VX Sg(n); for(int j=0;j<n;j++){ U(j==0?(k==1?1:0):2,j)=1; V(j,j)=1; Sg(j)=anyfactors?vx::real_s(idx(idx("S",i)+".",j),0.1,3):j==0?2:0.5; if(j==1) U(2,1)=-1; } if(anyfactors){ U=symm(idx("U",i),6,n); V=symm(idx("V",i),n,n); } if(wrongway){ V(0,0)=vx::real_s(idx("v",i),0.5,20); vx::assume_lt(0,V(0,0)); } FU.push_back(U); FV.push_back(V); FS.push_back(Sg); }
  double eps=vx::real_s("eps",0.01,1); vx::assume_lt(0,eps); double ej=wrongway?vx::real_s("eps joints",0.01,1):1e-15; if(wrongway) vx::assume_lt(0,ej); ChainIkSolverPos_LMA S(C,L,eps,maxit,ej); auto q=svq("q",n); Frame goal=Frame(gsym?svec("goal"):k==1?Vector(of(kf(c.pose(q,2)).p)[0],vx::real("goal.y"),of(kf(c.pose(q,2)).p)[2]):kf(c.pose(q,c.s.size())).p+Vector(vx::real("gx"),0,0)); JntArray out(n); int rc=S.CartToJnt(ja(q),goal,out); vx::check("latest error remembered",rc==S.getError()); std::vector<double> r; for(int i=0;i<n;i++) r.push_back(out(i)); double e0=norm(diff(kf(c.pose(q,c.s.size())),goal),L),e=norm(diff(kf(c.pose(r,c.s.size())),goal),L); vx::check("documented code",rc==0||rc==SolverI::E_MAX_ITERATIONS_EXCEEDED||rc==ChainIkSolverPos_LMA::E_GRADIENT_JOINTS_TOO_SMALL||rc==ChainIkSolverPos_LMA::E_INCREMENT_JOINTS_TOO_SMALL); if(rc==0){ vx::check_le("success within the tolerance",sqrt(e),eps); vx::reach("success"); } else { vx::check_le("failure only outside the tolerance",eps,sqrt(e)); vx::reach("failure"); } if(!anyfactors) vx::check_le("never further than the guess",sqrt(e),sqrt(e0)); diagnostics(S,c,out,goal,L); if(!ASKED.empty()) weighted_jac("decomposes the weighted Jacobian",ASKED[0],c,q,L); vx::check("decompositions within the iteration limit",(int)ASKED.size()<=(maxit>1?maxit:1)); }
VX_CASE(step){ iterate(0,1,true,false); }
VX_CASE(step_fixed){ iterate(1,1,true,false); }
VX_CASE(step_two_joints){ iterate(2,1,false,false); }
VX_CASE(two_steps){ iterate(0,2,false,false); }
VX_CASE(refused_steps){ iterate(0,2,false,false,true); } // steps of any size, joint tolerance of any size: rejected steps occur
VX_CASE(refused){ reset(); SC c=simple(0); Chain C=c.chain(); ChainIkSolverPos_LMA S(C); JntArray q(1),w(2),o(1); o(0)=vx::real("old"); double keep=o(0); Frame g; vx::check("wrong guess size",S.CartToJnt(w,g,o)==SolverI::E_SIZE_MISMATCH&&S.getError()==SolverI::E_SIZE_MISMATCH); vx::check("wrong result size",S.CartToJnt(q,g,w)==SolverI::E_SIZE_MISMATCH); C.addSegment(Segment(Joint(Joint::TransY))); vx::check("stale structure refused",S.CartToJnt(w,g,w)==SolverI::E_NOT_UP_TO_DATE&&S.CartToJnt(q,g,o)==SolverI::E_NOT_UP_TO_DATE&&S.getError()==SolverI::E_NOT_UP_TO_DATE); eq("output untouched",o(0),keep); S.updateInternalDataStructures(); vx::check("old sizes refused",S.CartToJnt(q,g,o)==SolverI::E_SIZE_MISMATCH); }
