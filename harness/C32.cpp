// SRC: frames utilities/utility joint segment chain tree rigidbodyinertia rotationalinertia jntarray jacobian treeiksolverpos_online treeiksolverpos_nr_jl treeiksolvervel_wdls treejnttojacsolver
// BOUNDS: 0..3 joints, 1 or 2 end points, one or two calls, 0..2 iterations, every answer and failure of the forward and velocity sub-solvers, every translation and every rotation about one axis, all positive rate limits and ordered position limits; velocity solver on trees of 1..4 segments with any weights, damping and any factors the decomposition may return (its contract is decided by C28)
#include "tre.h"
#include <utilities/svd_eigen_HH.hpp>
#include <treeiksolverpos_online.hpp>
#include <treeiksolverpos_nr_jl.hpp>
#include <treeiksolvervel_wdls.hpp>
using namespace KDL; using namespace kx; typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
static MX ASKED,FU,FV; static VX FS; static int RET;
namespace KDL{ __attribute__((weak)) int svd_eigen_HH(const MX&A,MX&U,VX&S,MX&V,VX&,int,double){ ASKED=A; if(RET==0){ U=FU; S=FS; V=FV; } return RET; } }
struct FkCall{ std::vector<double> q; Frame f; string e; int rc; }; struct IkCall{ std::vector<double> q,d; Twists v; double rc; };
static std::vector<FkCall> FK; static std::vector<IkCall> IK; static int MODE; static bool FAULTS;
static std::vector<double> vec(const JntArray&q){ std::vector<double> r; for(unsigned i=0;i<q.rows();i++) r.push_back(q(i)); return r; }
// MODE 0: one component of position and rotation about z; 1: positions along x and y; 2: one position component; 3: no displacement at all; 4: as 0, current pose unrotated
static Frame any(const string&n){ if(MODE==3) return Frame::Identity(); if(MODE==4&&n[0]=='f') return Frame(Vector(0,0,vx::real(n+".z"))); if(MODE==2) return Frame(Vector(vx::real(n+".x"),0,0)); if(MODE==1) return Frame(Vector(vx::real(n+".x"),vx::real(n+".y"),0)); return Frame(kr(rotz(vx::range(n+".turn",-1.5,1.5))),Vector(0,0,vx::real(n+".z"))); }
struct Fk:TreeFkSolverPos{ int JntToCart(const JntArray&q,Frame&f,string e){ int k=FK.size(); f=any(idx("fk",k)); int rc=FAULTS&&vx::flip(idx("fk fails",k))?-7:0; FK.push_back({vec(q),f,e,rc}); return rc; } };
struct Ik:TreeIkSolverVel{ double CartToJnt(const JntArray&q,const Twists&v,JntArray&d){ int k=IK.size(); d.resize(q.rows()); for(unsigned i=0;i<q.rows();i++) d(i)=vx::real(idx(idx("dq",k)+".",i)); double rc; if(FAULTS&&vx::flip(idx("ik fails",k))) rc=-9; else { rc=vx::real_s(idx("distance",k),0,2); vx::assume_le(0,rc); } IK.push_back({vec(q),vec(d),v,rc}); return rc; } };
static JntArray arr(const string&n,int k){ JntArray a(k); for(int i=0;i<k;i++) a(i)=vx::real(idx(n,i)); return a; }
static const char*EP[]={"hand","arm"};
static void reset(int mode,bool faults){ FK.clear(); IK.clear(); MODE=mode; FAULTS=faults; }
static double pos(const string&n){ double x=vx::real_s(n,0.1,3); vx::assume_lt(0,x); return x; }
static double norm2(const Vector&v){ return v.x()*v.x()+v.y()*v.y()+v.z()*v.z(); }
// what one call of the online solver may do
static void online_call(const string&l,TreeIkSolverPos_Online&S,int n,const Frames&goal,const std::vector<string>&eps_,const JntArray&lo,const JntArray&hi,const JntArray&rate,double tm,double rm,bool inplace){ 
  JntArray q0=arr(l+"q",n),q=arr(l+"old",n); size_t f0=FK.size(),i0=IK.size(); double r; if(inplace){ q=q0; r=S.CartToJnt(q,goal,q); } else r=S.CartToJnt(q0,goal,q);
  bool fkf=false; for(size_t k=f0;k<FK.size();k++) fkf|=FK[k].rc<0; if(fkf){ vx::check(l+"forward failure reported",r<0&&IK.size()==i0); return; }
  vx::check(l+"one velocity request",IK.size()==i0+1&&FK.size()==f0+goal.size()); if(IK.size()!=i0+1) return; auto&K=IK[i0]; vx::check_eq(l+"answer of the velocity solver",r,K.rc); for(int i=0;i<n;i++) eq(l+idx("asked at the given position ",i),K.q[i],q0(i));
  vx::check(l+"all end points requested",K.v.size()==eps_.size()); 
  for(auto&e:eps_){ auto it=K.v.find(e); vx::check(l+"requested",it!=K.v.end()); if(it==K.v.end()) return; Twist t=it->second; auto g=goal.find(e); if(g==goal.end()){ eq(l+"end point without a goal stays",t,Twist::Zero()); continue; }
    Frame f; for(size_t k=f0;k<FK.size();k++) if(FK[k].e==e) f=FK[k].f; Twist d=diff(f,g->second); double tv=norm2(t.vel),tr=norm2(t.rot); vx::check_le(l+e+" translational limit",sqrt(tv),tm,1e-6); vx::check_le(l+e+" rotational limit",sqrt(tr),rm,1e-6);
    double k=1; if(sqrt(norm2(d.vel))>tm) k=tm/sqrt(norm2(d.vel)); if(k*sqrt(norm2(d.rot))>rm) k=rm/sqrt(norm2(d.rot)); for(int i=0;i<6;i++) eq(l+e+idx(" scaled by the biggest overshoot ",i),t[i],k*d[i]);
    if(sqrt(norm2(d.vel))<=tm&&sqrt(norm2(d.rot))<=rm){ eq(l+e+" full request within the limits",t,d); vx::reach("within"); } else vx::reach("limited"); }
  if(K.rc<0) return;
  double s=1; for(int i=0;i<n;i++){ double a=K.d[i]<0?-K.d[i]:K.d[i]; if(a*s>rate(i)) s=rate(i)/a; }
  for(int i=0;i<n;i++){ double w=q0(i)+s*K.d[i]; double c=w<lo(i)?lo(i):w>hi(i)?hi(i):w; eq(l+idx("joint ",i),q(i),c); vx::check_le(l+idx("above the lower limit ",i),lo(i),q(i)); vx::check_le(l+idx("below the upper limit ",i),q(i),hi(i)); vx::check_le(l+idx("rate limit ",i),s*K.d[i],rate(i)); vx::check_le(l+idx("negative rate limit ",i),-rate(i),s*K.d[i]); } vx::reach("moved"); }
struct Lim{ JntArray lo,hi,rate; double tm,rm; Lim(int n){ lo=arr("lower",n); hi=arr("upper",n); rate=JntArray(n); for(int i=0;i<n;i++){ vx::assume_le(lo(i),hi(i)); rate(i)=pos(idx("rate",i)); } tm=pos("translational rate"); rm=pos("rotational rate"); } };
static void online(int n,int ne,int mode,bool faults,bool inplace=false){ reset(mode,faults); Lim L(n); Fk fk; Ik ik; std::vector<string> e(EP,EP+ne); TreeIkSolverPos_Online S(n,e,L.lo,L.hi,L.rate,L.tm,L.rm,fk,ik); Frames g; for(auto&x:e) g[x]=any("goal "+x); online_call("",S,n,g,e,L.lo,L.hi,L.rate,L.tm,L.rm,inplace); }
VX_CASE(online_joints){ online(vx::choose("joints",2),1,2,false); }
VX_CASE(online_two_joints){ online(2,1,3,false); }
VX_CASE(online_in_place){ online(1,1,2,false,true); }
VX_CASE(online_pose){ online(0,1,4,false); }
VX_CASE_THOROUGH(online_pose_rotated){ online(0,1,0,false); }
VX_CASE(online_plane){ online(0,1,1,false); }
VX_CASE(online_two){ online(1,2,2,true); }
VX_CASE_THOROUGH(online_three_joints){ online(3,1,2,false); }
VX_CASE_THOROUGH(online_two_poses){ online(1,2,0,true); }
VX_CASE(online_again){ reset(3,false); Lim L(0); Fk fk; Ik ik; std::vector<string> e(EP,EP+2); TreeIkSolverPos_Online S(0,e,L.lo,L.hi,L.rate,L.tm,L.rm,fk,ik); Frames first; for(int i=0;i<2;i++) first[EP[i]]=Frame(Vector(i+1,0.5,0)); JntArray z(0),y(0); S.CartToJnt(z,first,y); FK.clear(); IK.clear(); MODE=2; int w=vx::choose("goals",4); Frames g; for(int i=0;i<2;i++) if(w>>i&1) g[EP[i]]=any(string("goal")+EP[i]); online_call("",S,0,g,e,L.lo,L.hi,L.rate,L.tm,L.rm,false); }
VX_CASE(online_refused){ reset(2,false); Lim L(2); Fk fk; Ik ik; std::vector<string> e(EP,EP+1); TreeIkSolverPos_Online S(2,e,L.lo,L.hi,L.rate,L.tm,L.rm,fk,ik); Frames g; g["hand"]=any("goal"); g["foot"]=any("goal2"); JntArray q=arr("q",2),o=arr("old",2); vx::check("unknown end point",S.CartToJnt(q,g,o)==-2&&FK.empty()&&IK.empty()); g.erase("foot"); JntArray w=arr("q",vx::flip("more")?3:1); vx::check("wrong size",S.CartToJnt(w,g,o)<0); for(unsigned i=0;i<w.rows()&&i<o.rows();i++) eq(idx("unmoved",i),o(i),w(i)); JntArray three=arr("l",3); int which=vx::choose("which",3); TreeIkSolverPos_Online B(2,e,which==0?three:L.lo,which==1?three:L.hi,which==2?three:L.rate,L.tm,L.rm,fk,ik); vx::check("wrong limits",B.CartToJnt(q,g,o)==-1); }
// ---- iterating solver
static ST tree1(int n){ static const int t[]={2}; std::vector<int> par,o; std::vector<string> nm; for(int i=0;i<n;i++){ par.push_back(i-1); o.push_back(i); nm.push_back(idx("s",i)); } ST r; r.par=par; r.order=o; r.name=nm; (void)t; for(int i=0;i<n;i++){ SS s; s.j=mkj(idx("j",i),2,false); s.tip={eye(),v3(1,0,0)}; r.s.push_back(s); } return r; }
static void nrjl(int n,int ne,int mode,int maxit,bool faults){ reset(mode,faults); Tree T=tree1(n).tree(); Lim L(n); double eps=pos("eps"); Fk fk; Ik ik; std::vector<string> e(EP,EP+ne); TreeIkSolverPos_NR_JL S(T,e,L.lo,L.hi,fk,ik,maxit,eps); Frames g; int w=ne==1?1:1+vx::choose("goals",3); for(int i=0;i<ne;i++) if(w>>i&1) g[EP[i]]=any(string("goal ")+EP[i]); 
  if(ne==2&&w!=3&&!faults&&maxit){ int keep=maxit; Frames h; for(int i=0;i<2;i++) h[EP[i]]=Frame(Vector(i+1,0,0)); TreeIkSolverPos_NR_JL&R=S; JntArray z=arr("z",n),y(n); R.CartToJnt(z,h,y); FK.clear(); IK.clear(); (void)keep; }
  JntArray q0=arr("q",n),q=arr("old",n); double r=S.CartToJnt(q0,g,q); auto clamp=[&](int i,double x){ return x<L.lo(i)?L.lo(i):x>L.hi(i)?L.hi(i):x; }; size_t per=g.size();
  bool fkf=false,ikf=false; for(auto&c:FK) fkf|=c.rc<0; for(auto&c:IK) ikf|=c.rc<0; vx::check("within the iteration limit",(int)IK.size()<=maxit&&FK.size()<=maxit*per);
  for(size_t k=0;k<IK.size();k++) for(int i=0;i<n;i++) eq(idx(idx("iterate ",k)+" joint ",i),IK[k].q[i],k==0?clamp(i,q0(i)):clamp(i,IK[k-1].q[i]+IK[k-1].d[i]));
  for(size_t k=0;k<FK.size();k++) for(int i=0;i<n&&k/per<IK.size();i++) eq(idx(idx("pose taken at iterate ",k)+" joint ",i),FK[k].q[i],IK[k/per].q[i]);
  for(size_t k=0;k<IK.size();k++) for(auto&x:e){ auto it=IK[k].v.find(x); vx::check("requested",it!=IK[k].v.end()); if(it==IK[k].v.end()) continue; if(!g.count(x)){ eq("end point without a goal stays",it->second,Twist::Zero()); continue; } for(size_t m=k*per;m<(k+1)*per;m++) if(FK[m].e==x) eq(idx(x+" error asked ",k),it->second,diff(FK[m].f,g[x])); }
  if(fkf){ vx::check("forward failure reported",r<0); return; } if(ikf){ vx::check_eq("velocity failure reported",r,IK.back().rc); vx::check("stops at the failure",IK.back().rc<0); return; }
  for(int i=0;i<n;i++){ vx::check_le(idx("above the lower limit ",i),L.lo(i),q(i)); vx::check_le(idx("below the upper limit ",i),q(i),L.hi(i)); }
  if(r>=0){ vx::check("success was verified",!IK.empty()); if(IK.empty()) return; vx::check_eq("distance reported",r,IK.back().rc); vx::check_le("within tolerance",IK.back().rc,eps); for(int i=0;i<n;i++) eq(idx("returned joints are the verified ones ",i),q(i),IK.back().q[i]); vx::reach("success"); }
  else { vx::check("gave up at the iteration limit",r==-3&&(int)IK.size()==maxit); for(auto&c:IK) vx::check_le("no converged iterate discarded",eps,c.rc); vx::reach("gave up"); } }
VX_CASE(iterate){ nrjl(vx::choose("joints",2),1,2,vx::choose("maxiter",3),false); }
VX_CASE(iterate_pose){ nrjl(1,1,0,1,false); }
VX_CASE(iterate_two){ nrjl(2,1,2,1,false); }
VX_CASE(iterate_faults){ nrjl(1,2,2,2,true); }
VX_CASE(iterate_again){ nrjl(1,2,2,1,false); }
VX_CASE_THOROUGH(iterate_two_twice){ nrjl(2,1,2,2,false); }
VX_CASE(iterate_refused){ reset(2,false); Tree T=tree1(2).tree(); Lim L(2); Fk fk; Ik ik; std::vector<string> e(EP,EP+1); TreeIkSolverPos_NR_JL S(T,e,L.lo,L.hi,fk,ik,3,0.1); Frames g; g["hand"]=any("goal"); g["foot"]=any("goal2"); JntArray q=arr("q",2),o=arr("old",2); vx::check("unknown end point",S.CartToJnt(q,g,o)==-2&&FK.empty()&&IK.empty()); g.erase("foot"); JntArray w=arr("q",vx::flip("more")?3:1); vx::check("wrong size",S.CartToJnt(w,g,o)<0); JntArray three=arr("l",3),one=arr("l",1); int which=vx::choose("which",4); TreeIkSolverPos_NR_JL B(T,e,which==0?three:which==1?one:L.lo,which==2?three:which==3?one:L.hi,fk,ik,3,0.1); vx::check("wrong limits",B.CartToJnt(q,g,o)<0); }
// ---- velocity solver
static MX symm(const string&n,int r,int c){ MX m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=vx::real(idx(n,i,j)); return m; }
static MX mm(const MX&a,const MX&b){ MX r(a.rows(),b.cols()); for(int i=0;i<a.rows();i++) for(int j=0;j<b.cols();j++){ double s=0; for(int k=0;k<a.cols();k++) s=s+a(i,k)*b(k,j); r(i,j)=s; } return r; }
static MX tp(const MX&a){ MX r(a.cols(),a.rows()); for(int i=0;i<a.rows();i++) for(int j=0;j<a.cols();j++) r(j,i)=a(i,j); return r; }
// ends: which segments are end points; w: 0 default weights, 1 diagonal, 2 full joint weight, 3 full task weight
static void wdls(const ST&T,const std::vector<int>&ends,int w,bool damped){ Tree t=T.tree(); std::vector<string> e; for(int i:ends) e.push_back(T.name[i]); TreeIkSolverVel_wdls S(t,e); int n=T.nj(),m=6*ends.size(); auto q=svq("q",n); auto qn=T.qnr(); std::vector<int> o=ends; std::sort(o.begin(),o.end(),[&](int a,int b){ return T.name[a]<T.name[b]; });
  double lam=damped?pos("lambda"):0.0; if(damped) S.setLambda(lam); vx::check_eq("damping kept",S.getLambda(),lam); MX Wq=MX::Identity(n,n),Wy=MX::Identity(m,m); if(w==1){ for(int i=0;i<n;i++) Wq(i,i)=vx::real(idx("wq",i)); for(int i=0;i<m;i++) Wy(i,i)=vx::real(idx("wy",i)); } if(w==2) Wq=symm("wq",n,n); if(w==3){ for(int i=0;i<m;i++) Wy(i,i)=i%2?1:2; Wy(4,1)=vx::real("wy"); Wy(1,4)=vx::real("wy'"); } if(w){ S.setWeightJS(Wq); S.setWeightTS(Wy); }
  MX J=MX::Zero(m,n),v(m,1); Twists tw; for(size_t k=0;k<o.size();k++){ Twist x=stwist("v"+T.name[o[k]]); tw[T.name[o[k]]]=x; for(int i=0;i<3;i++){ v(6*k+i,0)=x.vel[i]; v(6*k+3+i,0)=x.rot[i]; } SC c=T.branch(o[k]); auto bq=T.bq(o[k],q,qn); int b=0; for(int s:T.path(o[k])) if(qn[s]>=0){ Tw col=c.col(bq,b++,c.s.size()); for(int i=0;i<3;i++){ J(6*k+i,qn[s])=col.v[i]; J(6*k+3+i,qn[s])=col.w[i]; } } }
  RET=0; FU=symm("U",m,n); FV=symm("V",n,n); FS=VX(n); for(int i=0;i<n;i++){ if(vx::flip(idx("zero singular value",i))) FS(i)=0; else FS(i)=pos(idx("S",i)); }
  JntArray out(n); for(int i=0;i<n;i++) out(i)=vx::real(idx("old",i)); double r=S.CartToJnt(ja(q),tw,out); MX A=mm(mm(Wy,J),Wq); vx::check("decomposes the weighted Jacobian (size)",ASKED.rows()==m&&ASKED.cols()==n); for(int i=0;i<m;i++) for(int j=0;j<n;j++) eq(idx(idx("weighted Jacobian ",i)+",",j),ASKED(i,j),A(i,j),1e-5);
  MX y=mm(Wy,v),s=mm(tp(FU),y); for(int i=0;i<n;i++) s(i,0)=vx::is_sym(FS(i))||FS(i)!=0?s(i,0)*FS(i)/(FS(i)*FS(i)+lam*lam):0.0; MX x=mm(Wq,mm(FV,s)); vx::check("as many rates as joints",(int)out.rows()==n); for(int i=0;i<n;i++) eq(idx("rate",i),out(i),x(i,0),1e-5); double n2=0; for(int i=0;i<m;i++) n2=n2+y(i,0)*y(i,0); vx::check_eq("weighted distance",r*r,n2,1e-5); vx::check("distance is not negative",r>=0);
  RET=-3; vx::check("failed decomposition",S.CartToJnt(ja(q),tw,out)<0); RET=0; }
static const int T3[]={7,8,6};
VX_CASE(velocity_one){ static const int all[]={0,1,2,3,4,5,6,7,8}; wdls(mkst({-1},{"a"},{0},all,9,1),{0},vx::choose("weights",4),vx::flip("damped")); }
VX_CASE(velocity_two){ wdls(mkst({-1,0},{"b","a"},{0,1},T3,3,2),{vx::choose("end",2)},vx::choose("weights",3),vx::flip("damped")); }
VX_CASE(velocity_fork){ static const int t[]={7,4,6}; wdls(mkst({-1,0,0},{"m","z","a"},vx::flip("order")?std::vector<int>{0,2,1}:std::vector<int>{0,1,2},t,3,2),{1,2},vx::choose("weights",2),false); }
VX_CASE(velocity_side_branch){ static const int t[]={7,4,6}; wdls(mkst({-1,0,0,-1},{"m","z","a","k"},{0,3,1,2},t,1,2),{2},0,vx::flip("damped")); }
VX_CASE(velocity_refused){ ST T=tree1(2); Tree t=T.tree(); TreeIkSolverVel_wdls S(t,{"s1","s0"}); Twists tw; tw["s1"]=stwist("a"); JntArray q=arr("q",2),o=arr("old",2),o0=o; vx::check("end point without a twist",S.CartToJnt(q,tw,o)<0); tw["s0"]=stwist("b"); tw["nowhere"]=stwist("c"); vx::check("unknown end point",S.CartToJnt(q,tw,o)<0); tw.erase("nowhere"); JntArray w=arr("w",vx::flip("more")?3:1); vx::check("wrong size",S.CartToJnt(w,tw,o)<0); for(int i=0;i<2;i++) eq(idx("untouched",i),o(i),o0(i)); TreeIkSolverVel_wdls B(t,{"s1","nowhere"}); Twists b; b["s1"]=stwist("a"); b["nowhere"]=stwist("b"); vx::check("end point not in the tree",B.CartToJnt(q,b,o)<0); }
