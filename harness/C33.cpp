// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia articulatedbodyinertia jntarray jntarrayvel jntspaceinertiamatrix jacobian chainfksolverpos_recursive chainfksolvervel_recursive chainjnttojacsolver chainjnttojacdotsolver chainiksolvervel_pinv chainiksolvervel_wdls chainiksolvervel_pinv_nso chainiksolvervel_pinv_givens chainidsolver_recursive_newton_euler chaindynparam chainfdsolver_recursive_newton_euler chainhdsolver_vereshchagin chainexternalwrenchestimator chainiksolverpos_nr chainiksolverpos_nr_jl
// BOUNDS: 18 solver entry points and the setters; chains of 1..3 segments; up to two arguments too small or too big by one or two at once, segment numbers -3..ns+2; histories of up to two changes of the chain (joint added, fixed segment added, shorter, moving joint fixed, all parameters changed) with and without update calls; every value of the states; decompositions are replaced by stand-ins that remember what they were asked (their contract is decided by C28)
#include "dyn.h"
#include <map>
#include <functional>
#include <memory>
#include <Eigen/Core>
#include <Eigen/SVD>
#include <utilities/svd_eigen_HH.hpp>
#include <utilities/svd_HH.hpp>
#include <utilities/ldl_solver_eigen.hpp>
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX; typedef std::vector<double> VD; typedef std::vector<int> VI;
static VD LOG; // what the decompositions were asked
static void log_(const MX&m){ LOG.push_back(m.rows()); LOG.push_back(m.cols()); for(int i=0;i<m.rows();i++) for(int j=0;j<m.cols();j++) LOG.push_back(m(i,j)); }
static std::map<std::string,double> POOL; static double pool(const std::string&n){ auto it=POOL.find(n); if(it!=POOL.end()) return it->second; return POOL[n]=vx::real(n); }
template<> Eigen::JacobiSVD<MX>& Eigen::JacobiSVD<MX>::compute(const MX&m,unsigned o){ log_(m); allocate(m.rows(),m.cols(),o); int n=m.cols(),d=n<6?n:6; m_matrixU=MX::Zero(6,d); m_matrixV=MX::Zero(n,d); m_singularValues=VX::Ones(d); m_nonzeroSingularValues=d; m_isInitialized=true; return *this; }
#include <chainiksolverpos_lma.cpp>
#include <chainfksolverpos_recursive.hpp>
#include <chainfksolvervel_recursive.hpp>
#include <chainjnttojacsolver.hpp>
#include <chainjnttojacdotsolver.hpp>
#include <chainiksolvervel_pinv.hpp>
#include <chainiksolvervel_wdls.hpp>
#include <chainiksolvervel_pinv_nso.hpp>
#include <chainiksolvervel_pinv_givens.hpp>
#include <chainidsolver_recursive_newton_euler.hpp>
#include <chaindynparam.hpp>
#include <chainfdsolver_recursive_newton_euler.hpp>
#include <chainhdsolver_vereshchagin.hpp>
#include <chainexternalwrenchestimator.hpp>
#include <chainiksolverpos_nr.hpp>
#include <chainiksolverpos_nr_jl.hpp>
using namespace KDL; using namespace kx;
namespace KDL{
__attribute__((weak)) int svd_eigen_HH(const MX&A,MX&U,VX&S,MX&V,VX&,int,double){ log_(A); int r=A.rows(),c=A.cols(); vx::check("decomposition storage",U.rows()==r&&U.cols()==c&&V.rows()==c&&V.cols()==c&&S.size()==c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) U(i,j)=(i+j)%2?0:pool(idx("U",i,j)); for(int i=0;i<c;i++) for(int j=0;j<c;j++) V(i,j)=(i+j)%2?0:pool(idx("V",i,j)); for(int i=0;i<c;i++) S(i)=2+i; return 0; }
__attribute__((weak)) SVD_HH::SVD_HH(const Jacobian&j):tmp(j.columns()){} __attribute__((weak)) SVD_HH::~SVD_HH(){}
__attribute__((weak)) int SVD_HH::calculate(const Jacobian&J,std::vector<JntArray>&U,JntArray&w,std::vector<JntArray>&v,int){ log_(J.data); int c=J.columns(); vx::check("decomposition storage",U.size()==6&&(int)v.size()==c&&(int)w.rows()==c&&(int)tmp.rows()==c); for(int i=0;i<6;i++) for(int j=0;j<c;j++) U[i](j)=(i+j)%2?0:pool(idx("U",i,j)); for(int i=0;i<c;i++) for(int j=0;j<c;j++) v[i](j)=(i+j)%2?0:pool(idx("V",i,j)); for(int j=0;j<c;j++) w(j)=2+j; return 0; }
__attribute__((weak)) int ldl_solver_eigen(const MX&A,const VX&b,MX&L,VX&D,VX&t,VX&q){ log_(A); log_(b); int n=A.rows(); vx::check("solver storage",b.size()==n&&L.rows()==n&&L.cols()==n&&D.size()==n&&t.size()==n&&q.size()==n); for(int i=0;i<n;i++) q(i)=pool(idx("ldl",i)); return 0; } }
static JntArray arr(const string&n,int k){ JntArray a(k<0?0:k); for(int i=0;i<k;i++) a(i)=pool(idx(n,i)); return a; }
static void put(VD&o,const JntArray&a){ for(unsigned i=0;i<a.rows();i++) o.push_back(a(i)); }
static void put(VD&o,const Vector&a){ for(int i=0;i<3;i++) o.push_back(a[i]); }
static void put(VD&o,const Rotation&a){ for(int i=0;i<9;i++) o.push_back(a.data[i]); }
static void put(VD&o,const Frame&a){ put(o,a.M); put(o,a.p); }
static void put(VD&o,const Twist&a){ put(o,a.vel); put(o,a.rot); }
static void put(VD&o,const FrameVel&a){ put(o,a.M.R); put(o,a.M.w); put(o,a.p.p); put(o,a.p.v); }
static void put(VD&o,const Jacobian&a){ for(int i=0;i<6;i++) for(unsigned j=0;j<a.columns();j++) o.push_back(a(i,j)); }
static Frame oldf(const string&n){ Frame f; f.p=Vector(pool(n+".x"),pool(n+".y"),pool(n+".z")); return f; }
static Twist tw(const string&n){ Twist t; for(int i=0;i<6;i++) t(i)=pool(idx(n,i)); return t; }
static Wrenches wr(int k){ Wrenches r; for(int i=0;i<k;i++){ Wrench w; for(int j=0;j<6;j++) w(j)=pool(idx(idx("f",i)+".",j)); r.push_back(w); } return r; }
static Jacobian jac(const string&n,int k){ Jacobian J(k<0?0:k); for(int j=0;j<k;j++) J.setColumn(j,tw(idx(n,j)+".")); return J; }
static FrameVel fv(const string&n){ FrameVel f; f=FrameVel(oldf(n)); f.p.v=Vector(pool(n+".vx"),0,0); return f; }
// one entry point of one solver: nominal argument sizes, one call with given sizes, the solver
enum{ LIVE=0,NJ=1,NJNS=2 };
struct K{ int sens,seg; K(int s,int g=0):sens(s),seg(g){} virtual ~K(){} virtual SolverI&S()=0; virtual VI dims(const Chain&c,int seg)=0; virtual int call(const VI&d,int seg,VD&b,VD&a)=0; virtual VD reset(const VI&){ return VD(); } };
static int cnt(const Chain&c,int seg){ return seg<0?(int)c.getNrOfSegments():seg; } static int nj(const Chain&c){ return c.getNrOfJoints(); } static int ns(const Chain&c){ return c.getNrOfSegments(); }
#define SOLVER(T) T s; SolverI&S(){ return s; }
struct FkP:K{ SOLVER(ChainFkSolverPos_recursive) FkP(const Chain&c):K(LIVE,1),s(c){} VI dims(const Chain&c,int){ return {nj(c)}; } VD reset(const VI&){ VD r; put(r,Frame::Identity()); return r; } int call(const VI&d,int seg,VD&b,VD&a){ Frame f=oldf("of"); put(b,f); int rc=s.JntToCart(arr("q",d[0]),f,seg); put(a,f); return rc; } };
struct FkPv:K{ SOLVER(ChainFkSolverPos_recursive) FkPv(const Chain&c):K(LIVE,2),s(c){} VI dims(const Chain&c,int g){ return {nj(c),cnt(c,g)}; } int call(const VI&d,int seg,VD&b,VD&a){ std::vector<Frame> f(d[1]<0?0:d[1]); for(size_t i=0;i<f.size();i++){ f[i]=oldf(idx("of",i)); put(b,f[i]); } int rc=s.JntToCart(arr("q",d[0]),f,seg); for(auto&x:f) put(a,x); return rc; } };
struct FkV:K{ SOLVER(ChainFkSolverVel_recursive) FkV(const Chain&c):K(LIVE,1),s(c){} VI dims(const Chain&c,int){ return {nj(c),nj(c)}; } VD reset(const VI&){ VD r; put(r,FrameVel::Identity()); return r; } int call(const VI&d,int seg,VD&b,VD&a){ FrameVel f=fv("of"); put(b,f); JntArrayVel q; q.q=arr("q",d[0]); q.qdot=arr("qd",d[1]); int rc=s.JntToCart(q,f,seg); put(a,f); return rc; } };
struct FkVv:K{ SOLVER(ChainFkSolverVel_recursive) FkVv(const Chain&c):K(LIVE,2),s(c){} VI dims(const Chain&c,int g){ return {nj(c),nj(c),cnt(c,g)}; } int call(const VI&d,int seg,VD&b,VD&a){ std::vector<FrameVel> f(d[2]<0?0:d[2]); for(size_t i=0;i<f.size();i++){ f[i]=fv(idx("of",i)); put(b,f[i]); } JntArrayVel q; q.q=arr("q",d[0]); q.qdot=arr("qd",d[1]); int rc=s.JntToCart(q,f,seg); for(auto&x:f) put(a,x); return rc; } };
struct Jac:K{ SOLVER(ChainJntToJacSolver) Jac(const Chain&c):K(NJ,1),s(c){} VI dims(const Chain&c,int){ return {nj(c),nj(c)}; } VD reset(const VI&d){ return VD(6*d[1],0.0); } int call(const VI&d,int seg,VD&b,VD&a){ Jacobian J=jac("oj",d[1]); put(b,J); int rc=s.JntToJac(arr("q",d[0]),J,seg); put(a,J); return rc; } };
struct JdT:K{ SOLVER(ChainJntToJacDotSolver) JdT(const Chain&c):K(NJ,1),s(c){} VI dims(const Chain&c,int){ return {nj(c),nj(c)}; } int call(const VI&d,int seg,VD&b,VD&a){ Twist t=tw("ot"); put(b,t); JntArrayVel q; q.q=arr("q",d[0]); q.qdot=arr("qd",d[1]); int rc=s.JntToJacDot(q,t,seg); put(a,t); return rc; } };
struct JdJ:K{ SOLVER(ChainJntToJacDotSolver) JdJ(const Chain&c):K(NJ,1),s(c){ s.setRepresentation(1); } VI dims(const Chain&c,int){ return {nj(c),nj(c),nj(c)}; } VD reset(const VI&d){ return VD(6*d[2],0.0); } int call(const VI&d,int seg,VD&b,VD&a){ Jacobian J=jac("oj",d[2]); put(b,J); JntArrayVel q; q.q=arr("q",d[0]); q.qdot=arr("qd",d[1]); int rc=s.JntToJacDot(q,J,seg); put(a,J); return rc; } };
template<class T> struct IkV:K{ SOLVER(T) IkV(const Chain&c):K(NJ),s(c){} IkV(const Chain&c,const JntArray&o,const JntArray&w):K(NJ),s(c,o,w){} VI dims(const Chain&c,int){ return {nj(c),nj(c)}; } int call(const VI&d,int,VD&b,VD&a){ JntArray o=arr("old",d[1]); put(b,o); int rc=s.CartToJnt(arr("q",d[0]),tw("v"),o); put(a,o); return rc; } };
struct Nso:IkV<ChainIkSolverVel_pinv_nso>{ static JntArray w(int n){ JntArray r(n); for(int i=0;i<n;i++) r(i)=1; return r; } Nso(const Chain&c):IkV(c,JntArray(nj(c)),w(nj(c))){} };
struct Lma:K{ SOLVER(ChainIkSolverPos_LMA) Lma(const Chain&c):K(NJ),s(c,1e-5,0){} VI dims(const Chain&c,int){ return {nj(c),nj(c)}; } int call(const VI&d,int,VD&b,VD&a){ JntArray o=arr("old",d[1]); put(b,o); int rc=s.CartToJnt(arr("q",d[0]),Frame(Vector(50,60,70)),o); put(a,o); if(rc>=0||rc==SolverI::E_MAX_ITERATIONS_EXCEEDED){ a.push_back(s.lastDifference*s.lastDifference); b.push_back(0); } return rc; } };
struct Mass:K{ SOLVER(ChainDynParam) Mass(const Chain&c):K(NJNS),s(c,kv(v3(0.5,-1,-9.81))){} VI dims(const Chain&c,int){ return {nj(c),nj(c)}; } int call(const VI&d,int,VD&b,VD&a){ int n=d[1]<0?0:d[1]; JntSpaceInertiaMatrix H(n); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ H(i,j)=pool(idx("h",i,j)); b.push_back(H(i,j)); } int rc=s.JntToMass(arr("q",d[0]),H); for(int i=0;i<n;i++) for(int j=0;j<n;j++) a.push_back(H(i,j)); return rc; } };
struct Cor:K{ SOLVER(ChainDynParam) Cor(const Chain&c):K(NJNS),s(c,kv(v3(0.5,-1,-9.81))){} VI dims(const Chain&c,int){ return {nj(c),nj(c),nj(c)}; } int call(const VI&d,int,VD&b,VD&a){ JntArray o=arr("old",d[2]); put(b,o); int rc=s.JntToCoriolis(arr("q",d[0]),arr("qd",d[1]),o); put(a,o); return rc; } };
struct Grav:K{ SOLVER(ChainDynParam) Grav(const Chain&c):K(NJNS),s(c,kv(v3(0.5,-1,-9.81))){} VI dims(const Chain&c,int){ return {nj(c),nj(c)}; } int call(const VI&d,int,VD&b,VD&a){ JntArray o=arr("old",d[1]); put(b,o); int rc=s.JntToGravity(arr("q",d[0]),o); put(a,o); return rc; } };
struct Id:K{ SOLVER(ChainIdSolver_RNE) Id(const Chain&c):K(NJNS),s(c,kv(v3(0.5,-1,-9.81))){} VI dims(const Chain&c,int){ return {nj(c),nj(c),nj(c),ns(c),nj(c)}; } int call(const VI&d,int,VD&b,VD&a){ JntArray o=arr("old",d[4]); put(b,o); int rc=s.CartToJnt(arr("q",d[0]),arr("qd",d[1]),arr("qdd",d[2]),wr(d[3]),o); put(a,o); return rc; } };
struct Fd:K{ SOLVER(ChainFdSolver_RNE) Fd(const Chain&c):K(NJNS),s(c,kv(v3(0.5,-1,-9.81))){} VI dims(const Chain&c,int){ return {nj(c),nj(c),nj(c),ns(c),nj(c)}; } int call(const VI&d,int,VD&b,VD&a){ JntArray o=arr("old",d[4]); put(b,o); int rc=s.CartToJnt(arr("q",d[0]),arr("qd",d[1]),arr("tau",d[2]),wr(d[3]),o); put(a,o); return rc; } };
struct Hd:K{ SOLVER(ChainHdSolver_Vereshchagin) Hd(const Chain&c):K(NJNS),s(c,Twist(Vector(0.5,-1,9.81),Vector::Zero()),1){} VI dims(const Chain&c,int){ return {nj(c),nj(c),nj(c),1,1,ns(c),nj(c),nj(c)}; } int call(const VI&d,int,VD&b,VD&a){ JntArray o=arr("old",d[2]),t=arr("oldt",d[7]); put(b,o); put(b,t); int rc=s.CartToJnt(arr("q",d[0]),arr("qd",d[1]),o,jac("alfa",d[3]),arr("beta",d[4]),wr(d[5]),arr("ff",d[6]),t); put(a,o); put(a,t); return rc; } };
static const char*NAME[]={"FkPos","FkPos (all segments)","FkVel","FkVel (all segments)","Jacobian","Jacobian derivative times rate","Jacobian derivative","pinv","wdls","nso","LMA","mass","Coriolis","gravity","inverse dynamics","forward dynamics","hybrid dynamics","givens"};
static K*mk(int k,const Chain&c){ switch(k){ case 0:return new FkP(c); case 1:return new FkPv(c); case 2:return new FkV(c); case 3:return new FkVv(c); case 4:return new Jac(c); case 5:return new JdT(c); case 6:return new JdJ(c); case 7:return new IkV<ChainIkSolverVel_pinv>(c); case 8:return new IkV<ChainIkSolverVel_wdls>(c); case 9:return new Nso(c); case 10:return new Lma(c); case 11:return new Mass(c); case 12:return new Cor(c); case 13:return new Grav(c); case 14:return new Id(c); case 15:return new Fd(c); case 16:return new Hd(c); default:return new IkV<ChainIkSolverVel_pinv_givens>(c); } }
// the variants of the chain: 0 original (fixed, moving, moving), 1 moving joint added, 2 fixed segment added, 3 shorter, 4 a moving joint replaced by a fixed one, 5 other parameters, 6 empty
static Segment seg(int joint,double tx,bool gantry){ Vector t(gantry?0:tx,gantry?0:0.5-tx,gantry?0:0.25); Joint j=joint==6?Joint("f",Joint::Fixed):gantry||joint!=7?Joint("j",JT[joint],gantry?2:1.5,gantry?0:0.25,0.5):Joint("j",Vector(0.1,0.2,0.3),Vector(0,0,1),Joint::RotAxis,1,0,0.5); return Segment("s",j,Frame(t),RigidBodyInertia(2+tx,Vector(0.25,tx,0.5),RotationalInertia(1,2,3,0.1,0.2,0.3))); }
static Chain variant(int v,bool gantry,int shift=0){ Chain c; if(v==6) return c; int a=gantry?3:2,b=4; double d=v==5?3:0; if(v==5&&!gantry) a=7; c.addSegment(seg(6,1+d,gantry)); c.addSegment(seg(a,2+d+shift,gantry)); if(v==3) return c; c.addSegment(seg(v==4?6:b,3+d,gantry)); if(v==1) c.addSegment(seg(gantry?5:3,4,gantry)); if(v==2) c.addSegment(seg(6,4,gantry)); return c; }
static const int CODES[]={0,1,-1,-2,-3,-4,-5,-6,-7,-8};
static string lbl(int k){ return string(NAME[k])+": "; }
static void unchanged(const string&l,K&k,const VI&d,const VD&b,const VD&a){ vx::check(l+"as much output",b.size()==a.size()); VD r=k.reset(d); bool same=true,rst=r.size()==a.size()&&!r.empty(); for(size_t i=0;i<a.size();i++){ if(same) same=vx::concrete()?std::fabs(a[i]-b[i])<1e-12:vx::is_sym(a[i])==vx::is_sym(b[i])&&a[i]==b[i]; if(rst) rst=!vx::is_sym(a[i])&&a[i]==r[i]; } vx::check(l+"output untouched or reset",same||rst); }
static void same(const string&l,int k,const VI&d,int sg,K&x,K&y){ VD b,a,b2,a2; LOG.clear(); int r=x.call(d,sg,b,a); VD l1=LOG; LOG.clear(); int r2=y.call(d,sg,b2,a2); vx::check(l+"same code as a fresh solver",r==r2); vx::check(l+"latest error remembered",x.S().getError()==r); vx::check(l+"accepted",r>=0||(k==10&&r==SolverI::E_MAX_ITERATIONS_EXCEEDED)); vx::check(l+"as many results",a.size()==a2.size()&&l1.size()==LOG.size()); for(size_t i=0;i<a.size()&&i<a2.size();i++) eq(l+idx("result as from a fresh solver ",i),a[i],a2[i],1e-6); for(size_t i=0;i<l1.size()&&i<LOG.size();i++) eq(l+idx("decomposition as in a fresh solver ",i),l1[i],LOG[i],1e-6); vx::check(l+"described",string(x.S().strError(r))!="UNKNOWN ERROR"); }
static int big(int n,const char*name){ static const int v[]={-1,1,2,-2}; return v[vx::choose(name,n)]; }
// wrong sizes and segment numbers
static void sizes(int lo,int hi,int two){ POOL.clear(); int k=lo+vx::choose("solver",hi-lo); Chain C=variant(0,k==17||k==10); std::unique_ptr<K> s(mk(k,C)),f(mk(k,C)); string l=lbl(k); int sg=-1; bool oor=false; if(s->seg){ static const int v[]={-1,0,1,3,4,5,-3,2}; sg=v[vx::choose("segment",8)]; oor=sg>ns(C)||(s->seg==2&&sg==0); } VI nom=s->dims(C,sg),d=nom; int n=nom.size(); int w=vx::choose("wrong argument",n+1); bool wrong=false; if(w<n){ d[w]+=big(two>1?4:3,"by"); wrong=true; if(two){ int w2=vx::choose("second wrong argument",n+1); if(w2<w) d[w2]+=big(2,"by too"); } } for(int&x:d) if(x<0) x=0; 
  VD b,a; int rc=s->call(d,sg,b,a); vx::check(l+"latest error remembered",s->S().getError()==rc); vx::check(l+"described",string(s->S().strError(rc))!="UNKNOWN ERROR"); wrong=d!=nom; 
  if(wrong&&oor) vx::check(l+"wrong size or segment refused",rc==SolverI::E_SIZE_MISMATCH||rc==SolverI::E_OUT_OF_RANGE); else if(wrong) vx::check(l+"wrong size refused",rc==SolverI::E_SIZE_MISMATCH); else if(oor) vx::check(l+"segment number refused",rc==SolverI::E_OUT_OF_RANGE); else vx::check(l+"accepted",rc>=0||(k==10&&rc==SolverI::E_MAX_ITERATIONS_EXCEEDED));
  if(wrong||oor){ unchanged(l,*s,d,b,a); if(s->seg==2||s->seg==0) sg=-1; else if(oor) sg=-1; same(l+"afterwards ",k,s->dims(C,sg),sg,*s,*f); vx::reach("refused"); } else vx::reach("accepted"); }
VX_CASE(sizes_kinematics){ sizes(0,7,1); }
VX_CASE(sizes_inverse){ sizes(7,11,1); }
VX_CASE(sizes_dynamics){ sizes(11,16,1); }
VX_CASE(sizes_hybrid){ sizes(16,18,1); }
VX_CASE_THOROUGH(sizes_all){ sizes(0,18,2); }
// the chain changes under the solver
static void history(int lo,int hi,int steps){ POOL.clear(); int k=lo+vx::choose("solver",hi-lo); bool g=k==17||k==10; Chain C=variant(0,g); std::unique_ptr<K> s(mk(k,C)); string l=lbl(k); int knj=nj(C),kns=ns(C); if(vx::flip("used before")){ VD b,a; s->call(s->dims(C,-1),-1,b,a); }
  for(int i=0;i<steps;i++){ int v=1+vx::choose(idx("change",i),k==17||k==10||k==1||k==3||k==16||k==15||steps>1?5:6); C=variant(v==6?6:v,g); bool stale=(s->sens>=NJ&&nj(C)!=knj)||(s->sens==NJNS&&ns(C)!=kns); string m=l+(i?"second change, ":"");
    if(stale){ for(int sz=0;sz<2;sz++){ VI d=s->dims(C,-1); if(sz) for(int&x:d) if(x==nj(C)) x=knj; VD b,a; int rc=s->call(d,-1,b,a); vx::check(m+"stale structure refused",rc==SolverI::E_NOT_UP_TO_DATE); vx::check(m+"latest error remembered",s->S().getError()==rc); vx::check(m+"described",string(s->S().strError(rc))!="UNKNOWN ERROR"); unchanged(m,*s,d,b,a); } vx::reach("stale"); } else { std::unique_ptr<K> f(mk(k,C)); same(m+"unaffected ",k,s->dims(C,-1),-1,*s,*f); vx::reach("unaffected"); }
    if(i+1<steps&&!vx::flip("updated in between")) continue; s->S().updateInternalDataStructures(); knj=nj(C); kns=ns(C); std::unique_ptr<K> f(mk(k,C)); if(k==17) f->call(f->dims(C,-1),-1,*new VD,*new VD); same(m+"updated ",k,s->dims(C,-1),-1,*s,*f); if(knj){ VI d=s->dims(C,-1); d[0]=0; VD b,a; vx::check(m+"size refused after the update",s->call(d,-1,b,a)==SolverI::E_SIZE_MISMATCH); } } }
VX_CASE(stale_kinematics){ history(0,7,1); }
VX_CASE(stale_inverse){ history(7,11,1); }
VX_CASE(stale_dynamics){ history(11,17,1); }
VX_CASE(stale_kinematics_twice){ history(4,7,2); }
VX_CASE(stale_inverse_twice){ history(7,11,2); }
VX_CASE(stale_dynamics_twice){ history(11,17,2); }
// setters
static void kept(const string&l,int k,K&x,K&y,const Chain&C){ same(l,k,x.dims(C,-1),-1,x,y); }
VX_CASE(setters){ POOL.clear(); Chain C=variant(0,false); int w=vx::choose("setter",8),by=big(3,"by"); std::unique_ptr<K> s,f; int k; auto code=[&](const string&l,int rc){ vx::check(l+" refused",rc==SolverI::E_SIZE_MISMATCH); vx::check(l+" latest error remembered",s->S().getError()==rc); }; auto fine=[&](const string&l,int rc){ vx::check(l+" accepted",rc==0&&s->S().getError()==0); };
  if(w<3){ k=8; auto*a=new IkV<ChainIkSolverVel_wdls>(C); auto*b=new IkV<ChainIkSolverVel_wdls>(C); s.reset(a); f.reset(b); if(w==0){ bool r=vx::flip("rows"),both=vx::flip("both"); code("joint weights",a->s.setWeightJS(MX::Constant(2+(r||both?by:0),2+(!r||both?by:0),7))); } if(w==1){ bool r=vx::flip("rows"),both=vx::flip("both"); code("task weights",a->s.setWeightTS(MX::Constant(6+(r||both?by:0),6+(!r||both?by:0),7))); } if(w==2){ VX o=VX::Constant(2+by,5.0); code("singular values",a->s.getSigma(o)); vx::check("untouched",o.size()==2+by&&(o.size()==0||o(0)==5)); } VX o(2); fine("singular values",a->s.getSigma(o)); MX W=MX::Identity(2,2); W(0,1)=pool("w"); fine("joint weights",a->s.setWeightJS(W)); b->s.setWeightJS(W); }
  else if(w<5){ k=9; auto*a=new Nso(C); auto*b=new Nso(C); s.reset(a); f.reset(b); if(w==3) code("weights",a->s.setWeights(arr("w",2+by))); else code("optimal positions",a->s.setOptPos(arr("w",2+by))); fine("weights",a->s.setWeights(arr("w",2))); b->s.setWeights(arr("w",2)); }
  else if(w<6){ k=4; auto*a=new Jac(C); auto*b=new Jac(C); s.reset(a); f.reset(b); code("locked joints",a->s.setLockedJoints(std::vector<bool>(2+by,true))); fine("locked joints",a->s.setLockedJoints({true,false})); b->s.setLockedJoints({true,false}); }
  else { k=5; auto*a=new JdT(C); auto*b=new JdT(C); s.reset(a); f.reset(b); code("locked joints",a->s.setLockedJoints(std::vector<bool>(2+by,true))); fine("locked joints",a->s.setLockedJoints({true,false})); b->s.setLockedJoints({true,false}); if(w==7){ Chain D=variant(1,false); C=D; a->s.updateInternalDataStructures(); b->s.updateInternalDataStructures(); JdT c(C); c.s.setLockedJoints({true,false,false}); VD x,y,p,q; int r=a->call({3,3},-1,x,y),r2=c.call({3,3},-1,p,q); vx::check("locks kept over the update",r==0&&r2==0); for(size_t i=0;i<y.size();i++) eq(idx("locks kept ",i),y[i],q[i]); } }
  kept("afterwards ",k,*s,*f,C); }
VX_CASE(setters_stale){ POOL.clear(); Chain C=variant(0,false); int w=vx::choose("setter",3); Jac j(C); IkV<ChainIkSolverVel_wdls> d(C); JdT t(C); C=variant(1+2*vx::choose("change",2),false); int n=nj(C); if(w==0) vx::check("locked joints",j.s.setLockedJoints(std::vector<bool>(n,true))==SolverI::E_NOT_UP_TO_DATE&&j.s.getError()==SolverI::E_NOT_UP_TO_DATE); if(w==1) vx::check("joint weights",d.s.setWeightJS(MX::Identity(n,n))==SolverI::E_NOT_UP_TO_DATE&&d.s.getError()==SolverI::E_NOT_UP_TO_DATE); if(w==2) vx::check("locked joints of the derivative",t.s.setLockedJoints(std::vector<bool>(n,true))<0&&t.s.getError()<0); }
// descriptions
VX_CASE(descriptions){ POOL.clear(); Chain C=variant(0,false); ChainFkSolverPos_recursive fk(C); ChainIkSolverVel_pinv ik(C); ChainIkSolverPos_NR nr(C,fk,ik); ChainIkSolverPos_NR_JL jl(C,arr("lo",2),arr("hi",2),fk,ik); ChainExternalWrenchEstimator es(C,Vector(0,0,-9.81),100,1,0.5); Lma lma(C); IkV<ChainIkSolverVel_wdls> wd(C); JdT jd(C); Nso nso(C); Mass dy(C); Id id(C); Fd fd(C); Hd hd(C); IkV<ChainIkSolverVel_pinv_givens> gv(variant(0,true));
  struct D{ SolverI*s; VI own; }; std::vector<D> all={{&fk,{}},{&ik,{100}},{&nr,{-100,-101}},{&jl,{-100,-101}},{&es,{-100,-101,-102,-103,-104}},{&lma.s,{-100,-101}},{&wd.s,{100}},{&jd.s,{-100,-101,-102}},{&nso.s,{}},{&dy.s,{}},{&id.s,{}},{&fd.s,{}},{&hd.s,{}},{&gv.s,{}}};
  for(auto&d:all){ vx::check("no error before the first call",d.s->getError()==0&&string(d.s->strError(0))=="No error"); std::map<string,int> seen; for(int c=-130;c<=130;c++){ bool known=false; for(int x:CODES) known|=x==c; for(int x:d.own) known|=x==c; string t=d.s->strError(c); vx::check(idx("description of code ",c),(t!="UNKNOWN ERROR")==known&&!t.empty()); if(known){ vx::check(idx("description of its own ",c),!seen.count(t)); seen[t]=c; } } }
  vx::check("own codes",ChainIkSolverVel_pinv::E_CONVERGE_PINV_SINGULAR==100&&ChainIkSolverPos_LMA::E_GRADIENT_JOINTS_TOO_SMALL==-100&&ChainIkSolverPos_LMA::E_INCREMENT_JOINTS_TOO_SMALL==-101); }
