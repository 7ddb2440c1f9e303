// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia jntarray jacobian chainiksolverpos_nr chainiksolverpos_nr_jl
// BOUNDS: 0..2 joints, 0..2 iterations (3 for the unlimited solver with one error component; 1 for rotational errors), every answer and every failure of the forward and velocity sub-solvers at any call, every target position, every rotation about one axis, tolerance, joint limits (lower <= upper) and initial guess; chain grown after construction
#include "chn.h"
#include <chainiksolverpos_nr.hpp>
#include <chainiksolverpos_nr_jl.hpp>
using namespace KDL; using namespace kx;
// what the sub-solvers were asked and answered
struct FkCall{ std::vector<double> q; Frame f; int rc; }; struct IkCall{ std::vector<double> q; Twist v; std::vector<double> d; int rc; };
static std::vector<FkCall> FK; static std::vector<IkCall> IK; static int UPD; static int MODE; static bool FAULTS,BOUNDED;
static std::vector<double> vec(const JntArray&q){ std::vector<double> r; for(unsigned i=0;i<q.rows();i++) r.push_back(q(i)); return r; }
// MODE: 0 any translation, no rotation; 1 any rotation about z and height; 2 one translation component
static Frame any(const string&n){ if(MODE==0) return Frame(svec(n)); if(MODE==2) return Frame(Vector(vx::real(n+".x"),0,0)); double a=vx::range(n+".turn",-1.5,1.5); return Frame(kr(rotz(a)),Vector(0,0,vx::real(n+".z"))); }
struct Fk:ChainFkSolverPos{ int JntToCart(const JntArray&q,Frame&f,int=-1){ int k=FK.size(); f=any(idx("fk",k)); int rc=FAULTS?(vx::flip(idx("fk fails",k))?-7:0):0; FK.push_back({vec(q),f,rc}); return rc; } int JntToCart(const JntArray&,std::vector<Frame>&,int=-1){ return -1; } void updateInternalDataStructures(){ UPD|=1; } };
struct Ik:ChainIkSolverVel{ int CartToJnt(const JntArray&q,const Twist&v,JntArray&d){ int k=IK.size(); std::vector<double> a; for(unsigned i=0;i<q.rows();i++){ double x=vx::real(idx(idx("dq",k)+".",i)); if(BOUNDED){ vx::assume_le(x,1e9); vx::assume_le(-1e9,x); } a.push_back(x); d(i)=x; } int rc=0; if(FAULTS){ int c=vx::choose(idx("ik answer",k),3); rc=c==0?0:c==1?100:-9; } IK.push_back({vec(q),v,a,rc}); return rc; } int CartToJnt(const JntArray&,const FrameVel&,JntArrayVel&){ return -1; } void updateInternalDataStructures(){ UPD|=2; } };
static Chain chain(int n){ Chain c; for(int i=0;i<n;i++){ c.addSegment(Segment(Joint(Joint::RotZ),Frame(Vector(1,0,0)))); if(i==0) c.addSegment(Segment(Joint(Joint::Fixed))); } return c; }
static double eps_(){ double e=vx::real_s("eps",1e-3,1); vx::assume_lt(0,e); return e; }
static JntArray arr(const string&n,int k){ JntArray a(k); for(int i=0;i<k;i++) a(i)=vx::real(idx(n,i)); return a; }
static void within(const string&l,const Frame&f,const Frame&t,double eps){ Twist d=diff(f,t); for(int i=0;i<6;i++){ vx::check_le(idx(l,i),d[i],eps); vx::check_le(idx(l+" minus",i),-eps,d[i]); } }
// common story of both solvers; clamp is applied to guesses and updates
template<class C> static void judge(int rc,int err,const Frame&target,const JntArray&q0,const JntArray&q,int maxit,double eps,C clamp,int ikfail,int fkfail,bool degraded){
  int n=q.rows(); vx::check("latest error remembered",rc==err); vx::check("forward solver within the iteration limit",(int)FK.size()<=maxit); vx::check("velocity solver within the iteration limit",(int)IK.size()<=maxit);
  for(size_t k=0;k<FK.size();k++) for(int i=0;i<n;i++){ double e=k==0?clamp(i,q0(i)):clamp(i,FK[k-1].q[i]+IK[k-1].d[i]); eq(idx(idx("iterate ",k)+" joint ",i),FK[k].q[i],e,1e-9); }
  for(size_t k=0;k<IK.size();k++){ eq(idx("velocity solver asked for the error ",k),IK[k].v,diff(FK[k].f,target)); for(int i=0;i<n;i++) eq(idx(idx("velocity solver at the iterate ",k)+" joint ",i),IK[k].q[i],FK[k].q[i]); }
  bool fkf=false,ikf=false; for(auto&c:FK) fkf|=c.rc<0; for(auto&c:IK) ikf|=c.rc<0; vx::check("forward failure reported",fkf==(rc==fkfail)); vx::check("velocity failure reported",ikf==(rc==ikfail)); if(fkf) vx::check("stops at a forward failure",FK.back().rc<0&&IK.size()+1==FK.size()); if(ikf) vx::check("stops at a velocity failure",IK.back().rc<0);
  if(rc>=0){ vx::check("success code",rc==0||(degraded&&rc==SolverI::E_DEGRADED)); vx::check("success was verified",!FK.empty()); if(!FK.empty()){ for(int i=0;i<n;i++) eq(idx("returned joints are the verified ones ",i),q(i),FK.back().q[i],1e-9); within("returned pose within tolerance",FK.back().f,target,eps); } if(degraded) vx::check("degraded velocity solution reported",(rc==SolverI::E_DEGRADED)==(IK.back().rc>0)); vx::reach("success"); }
  else if(!fkf&&!ikf){ vx::check("gave up at the iteration limit",rc==SolverI::E_MAX_ITERATIONS_EXCEEDED&&(int)FK.size()==maxit&&(int)IK.size()==maxit); vx::reach("gave up"); for(auto&c:FK){ Twist d=diff(c.f,target); bool in=true; for(int i=0;i<6;i++) if(!(d[i]<eps&&d[i]>-eps)){ in=false; break; } vx::check("no converged iterate discarded",!in); } } }
static void reset(int mode,bool faults){ FK.clear(); IK.clear(); UPD=0; MODE=mode; FAULTS=faults; BOUNDED=false; }
static void nr(int n,int maxit,int mode,bool faults){ reset(mode,faults); Chain c=chain(n); Fk fk; Ik ik; double eps=eps_(); ChainIkSolverPos_NR S(c,fk,ik,maxit,eps); Frame t=any("target"); JntArray q0=arr("init",n),q=arr("old",n); if(vx::flip("in place")){ JntArray g=q0; int rc=S.CartToJnt(g,t,g); judge(rc,S.getError(),t,q0,g,maxit,eps,[](int,double x){ return x; },ChainIkSolverPos_NR::E_IKSOLVER_FAILED,ChainIkSolverPos_NR::E_FKSOLVERPOS_FAILED,true); return; } JntArray keep=q0; int rc=S.CartToJnt(q0,t,q); for(int i=0;i<n;i++) eq(idx("guess untouched ",i),q0(i),keep(i)); judge(rc,S.getError(),t,q0,q,maxit,eps,[](int,double x){ return x; },ChainIkSolverPos_NR::E_IKSOLVER_FAILED,ChainIkSolverPos_NR::E_FKSOLVERPOS_FAILED,true); }
VX_CASE(nr_translation){ nr(1,vx::choose("maxiter",3),0,false); }
VX_CASE(nr_rotation){ nr(1,1,1,false); }
VX_CASE(nr_faults){ nr(vx::choose("joints",3),2,2,true); }
VX_CASE(nr_three){ nr(2,3,2,false); }
static void jl(int n,int maxit,int mode,bool faults,int ctor){ reset(mode,faults); Chain c=chain(n); Fk fk; Ik ik; double eps=eps_(); JntArray lo=arr("lower",n),hi=arr("upper",n); for(int i=0;i<n;i++) vx::assume_le(lo(i),hi(i)); JntArray wlo(n),whi(n); for(int i=0;i<n;i++){ wlo(i)=-5; whi(i)=5; } bool lim=ctor!=2; BOUNDED=!lim; ChainIkSolverPos_NR_JL*S=ctor==0?new ChainIkSolverPos_NR_JL(c,lo,hi,fk,ik,maxit,eps):ctor==1?new ChainIkSolverPos_NR_JL(c,wlo,whi,fk,ik,maxit,eps):new ChainIkSolverPos_NR_JL(c,fk,ik,maxit,eps); if(ctor==1) vx::check("limits set",S->setJointLimits(lo,hi)==0&&S->getError()==0); Frame t=any("target"); JntArray q0=arr("init",n),q=arr("old",n);
  if(!lim) for(int i=0;i<n;i++){ vx::assume_le(q0(i),1e9); vx::assume_le(-1e9,q0(i)); }
  auto clamp=[&](int i,double x){ if(!lim) return x; if(x<lo(i)) return lo(i); if(x>hi(i)) return hi(i); return x; };
  int rc=S->CartToJnt(q0,t,q);
  judge(rc,S->getError(),t,q0,q,maxit,eps,clamp,ChainIkSolverPos_NR_JL::E_IKSOLVERVEL_FAILED,ChainIkSolverPos_NR_JL::E_FKSOLVERPOS_FAILED,false); if(rc>=0||rc==SolverI::E_MAX_ITERATIONS_EXCEEDED) if(lim) for(int i=0;i<n;i++){ vx::check_le(idx("above the lower limit ",i),lo(i),q(i)); vx::check_le(idx("below the upper limit ",i),q(i),hi(i)); } delete S; }
VX_CASE(jl_translation){ jl(1,vx::choose("maxiter",2),0,false,vx::choose("limits by",2)); }
VX_CASE(jl_rotation){ jl(0,1,1,false,0); }
VX_CASE(jl_faults){ jl(vx::choose("joints",2),2,2,true,0); }
VX_CASE(jl_faults_two){ jl(2,1,2,true,0); }
VX_CASE(jl_unlimited){ jl(2,2,2,false,2); }
VX_CASE(jl_two){ jl(2,2,2,false,1); }
// a chain that grows: refused until updated, afterwards new joints are unlimited and old limits stay
VX_CASE(grown){ reset(2,false); bool with=vx::flip("limits"); Chain c=chain(1); Fk fk; Ik ik; double eps=eps_(); JntArray lo=arr("lower",1),hi=arr("upper",1); vx::assume_le(lo(0),hi(0)); Frame t=any("target"); if(with){ BOUNDED=true; ChainIkSolverPos_NR_JL S(c,lo,hi,fk,ik,2,eps); c.addSegment(Segment(Joint(Joint::TransX))); JntArray q0=arr("init",2),q=arr("old",2); vx::check("stale structure refused",S.CartToJnt(q0,t,q)==SolverI::E_NOT_UP_TO_DATE&&S.getError()==SolverI::E_NOT_UP_TO_DATE&&FK.empty()); S.updateInternalDataStructures(); vx::check("sub-solvers updated",UPD==3); JntArray w(1); vx::check("wrong sizes refused",S.CartToJnt(w,t,q)==SolverI::E_SIZE_MISMATCH&&S.CartToJnt(q0,t,w)==SolverI::E_SIZE_MISMATCH&&S.setJointLimits(w,q0)==SolverI::E_SIZE_MISMATCH&&S.setJointLimits(q0,w)==SolverI::E_SIZE_MISMATCH); for(int i=0;i<2;i++){ vx::assume_le(q0(i),1e9); vx::assume_le(-1e9,q0(i)); } int rc=S.CartToJnt(q0,t,q); judge(rc,S.getError(),t,q0,q,2,eps,[&](int i,double x){ if(i==1) return x; return x<lo(0)?lo(0):x>hi(0)?hi(0):x; },ChainIkSolverPos_NR_JL::E_IKSOLVERVEL_FAILED,ChainIkSolverPos_NR_JL::E_FKSOLVERPOS_FAILED,false); }
  else { ChainIkSolverPos_NR S(c,fk,ik,2,eps); c.addSegment(Segment(Joint(Joint::TransX))); JntArray q0=arr("init",2),q=arr("old",2); vx::check("stale structure refused",S.CartToJnt(q0,t,q)==SolverI::E_NOT_UP_TO_DATE&&S.getError()==SolverI::E_NOT_UP_TO_DATE&&FK.empty()); S.updateInternalDataStructures(); vx::check("sub-solvers updated",UPD==3); JntArray w(1); vx::check("wrong sizes refused",S.CartToJnt(w,t,q)==SolverI::E_SIZE_MISMATCH&&S.CartToJnt(q0,t,w)==SolverI::E_SIZE_MISMATCH&&S.getError()==SolverI::E_SIZE_MISMATCH); int rc=S.CartToJnt(q0,t,q); judge(rc,S.getError(),t,q0,q,2,eps,[](int,double x){ return x; },ChainIkSolverPos_NR::E_IKSOLVER_FAILED,ChainIkSolverPos_NR::E_FKSOLVERPOS_FAILED,true); } }
