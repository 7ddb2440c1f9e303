// SRC: frames utilities/utility framevel frameacc jacobian jntarray jntarrayvel jntarrayacc jntspaceinertiamatrix
#include "kx.h"
#include <framevel.hpp>
#include <frameacc.hpp>
#include <jacobian.hpp>
#include <jntarray.hpp>
#include <jntarrayvel.hpp>
#include <jntarrayacc.hpp>
#include <jntspaceinertiamatrix.hpp>
using namespace KDL; using namespace kx;
typedef std::vector<double> VD;
static void ap(VD&v,const Vector&a){ for(int i=0;i<3;i++) v.push_back(a.data[i]); } static void ap(VD&v,const Rotation&a){ for(int i=0;i<9;i++) v.push_back(a.data[i]); } static void ap(VD&v,const Frame&a){ ap(v,a.M); ap(v,a.p); } static void ap(VD&v,const Twist&a){ ap(v,a.vel); ap(v,a.rot);} static void ap(VD&v,const Wrench&a){ ap(v,a.force); ap(v,a.torque);} 
static void ap(VD&v,const VectorVel&a){ ap(v,a.p); ap(v,a.v);} static void ap(VD&v,const RotationVel&a){ ap(v,a.R); ap(v,a.w);} static void ap(VD&v,const FrameVel&a){ ap(v,a.M); ap(v,a.p);} static void ap(VD&v,const TwistVel&a){ ap(v,a.vel); ap(v,a.rot);} 
static void ap(VD&v,const VectorAcc&a){ ap(v,a.p); ap(v,a.v); ap(v,a.dv);} static void ap(VD&v,const RotationAcc&a){ ap(v,a.R); ap(v,a.w); ap(v,a.dw);} static void ap(VD&v,const FrameAcc&a){ ap(v,a.M); ap(v,a.p);} static void ap(VD&v,const TwistAcc&a){ ap(v,a.vel); ap(v,a.rot);} 
static void ap(VD&v,const Vector2&a){ v.push_back(a(0)); v.push_back(a(1)); } static void ap(VD&v,const Rotation2&a){ v.push_back(a(0,0)); v.push_back(a(1,0)); } static void ap(VD&v,const Frame2&a){ ap(v,a.p); ap(v,a.M);} 
static void ap(VD&v,const JntArray&a){ for(unsigned i=0;i<a.rows();i++) v.push_back(a.data(i)); } static void ap(VD&v,const JntArrayVel&a){ ap(v,a.q); ap(v,a.qdot);} static void ap(VD&v,const JntArrayAcc&a){ ap(v,a.q); ap(v,a.qdot); ap(v,a.qdotdot);} static void ap(VD&v,const Jacobian&a){ for(int j=0;j<a.data.cols();j++) for(int i=0;i<6;i++) v.push_back(a.data(i,j)); } static void ap(VD&v,const JntSpaceInertiaMatrix&a){ for(unsigned i=0;i<a.rows();i++) for(unsigned j=0;j<a.columns();j++) v.push_back(a.data(i,j)); }
static RotationVel srv(const string&n){ return RotationVel(skmat(n+".R"),svec(n+".w")); } static VectorVel svv(const string&n){ return VectorVel(svec(n+".p"),svec(n+".v")); } static RotationAcc sra(const string&n){ return RotationAcc(skmat(n+".R"),svec(n+".w"),svec(n+".dw")); } static VectorAcc sva(const string&n){ return VectorAcc(svec(n+".p"),svec(n+".v"),svec(n+".dv")); }
static JntArray sja(const string&n,int k){ JntArray a(k); for(int i=0;i<k;i++) a(i)=vx::real(idx(n,i)); return a; }
static Jacobian sjac(const string&n,int k){ Jacobian J(k); for(int j=0;j<k;j++) for(int i=0;i<6;i++) J.data(i,j)=vx::real(idx(n,i,j)); return J; }
static JntSpaceInertiaMatrix sjm(const string&n,int k){ JntSpaceInertiaMatrix M(k); for(int j=0;j<k;j++) for(int i=0;i<k;i++) M(i,j)=vx::real(idx(n,i,j)); return M; }
static double seps(){ return vx::range("eps",1e-6,1); }
static VD diffs(const VD&a,const VD&b){ VD d; for(size_t i=0;i<a.size();i++) d.push_back(a[i]-b[i]); return d; }
// r must say whether every |d_i| < e (boundary |d_i|==e not judged)
static void judge(const string&l,bool r,const VD&d,double e){ if(r){ for(size_t i=0;i<d.size();i++){ vx::check_le(idx(l+" true => upper ",i),d[i],e); vx::check_le(idx(l+" true => lower ",i),-e,d[i]); } } else { bool all=true; for(size_t i=0;i<d.size()&&all;i++) if(!(d[i]<e)||!(-e<d[i])) all=false; vx::check(l+" false => some component differs",!all); } }
template<class A,class B> void pair_case(const string&l,const A&a,const B&b,const VD&d,bool ops){ vx::reach(l); int w=vx::choose("op",ops?2:3); double e=seps(); 
  if(w==0) judge(l+" Equal(eps)",Equal(a,b,e),d,e); else if(w==1) judge(l+" Equal(b,a,eps)",Equal(b,a,e),d,e); else if(w==2) judge(l+" Equal default",Equal(a,b),d,KDL::epsilon); }
template<class A,class B> void op_case(const string&l,const A&a,const B&b,const VD&d){ vx::reach(l); if(vx::flip("ne")) judge(l+" !=",!(a!=b),d,KDL::epsilon); else judge(l+" ==",a==b,d,KDL::epsilon); }
template<class A> void same_case(const string&l,const A&a){ A c(a); vx::check(l+" Equal(a,copy)",Equal(a,c,seps())); }
template<class A,class B> void both(const string&l,const A&a,const B&b,const VD&d){ if(vx::flip("operators")) op_case(l,a,b,d); else pair_case(l,a,b,d,false); }
template<class A> void self(const string&l,const A&a,const A&b){ VD x,y; ap(x,a); ap(y,b); both(l,a,b,diffs(x,y)); }
VX_CASE(scalar){ double a=vx::real("a"),b=vx::real("b"); VD d{a-b}; pair_case("double",a,b,d,false); }
VX_CASE(vector){ self("Vector",svec("a"),svec("b")); } VX_CASE(rotation){ self("Rotation",skmat("a"),skmat("b")); } VX_CASE(frame){ self("Frame",sframe_free("a"),sframe_free("b")); } VX_CASE(twist){ self("Twist",stwist("a"),stwist("b")); } VX_CASE(wrench){ self("Wrench",swrench("a"),swrench("b")); }
static Vector2 sv2(const string&n){ return Vector2(vx::real(n+".x"),vx::real(n+".y")); } static Rotation2 sr2(const string&n){ double c=vx::real(n+".c"),s=vx::real(n+".s"); return Rotation2(c,s); }
VX_CASE(vector2){ self("Vector2",sv2("a"),sv2("b")); }
template<class A> void eqonly(const string&l,const A&a,const A&b){ VD x,y; ap(x,a); ap(y,b); pair_case(l,a,b,diffs(x,y),false); }
VX_CASE(rotation2){ eqonly("Rotation2",sr2("a"),sr2("b")); } VX_CASE(frame2){ eqonly("Frame2",Frame2(sr2("a"),sv2("p")),Frame2(sr2("b"),sv2("q"))); }
VX_CASE(vectorvel){ self("VectorVel",svv("a"),svv("b")); } VX_CASE(rotationvel){ self("RotationVel",srv("a"),srv("b")); } VX_CASE(framevel){ self("FrameVel",FrameVel(srv("a"),svv("p")),FrameVel(srv("b"),svv("q"))); } VX_CASE(twistvel){ self("TwistVel",TwistVel(svv("a"),svv("p")),TwistVel(svv("b"),svv("q"))); }
VX_CASE(vectoracc){ eqonly("VectorAcc",sva("a"),sva("b")); } VX_CASE(rotationacc){ eqonly("RotationAcc",sra("a"),sra("b")); } VX_CASE(frameacc){ eqonly("FrameAcc",FrameAcc(sra("a"),sva("p")),FrameAcc(sra("b"),sva("q"))); } VX_CASE(twistacc){ eqonly("TwistAcc",TwistAcc(sva("a"),sva("p")),TwistAcc(sva("b"),sva("q"))); }
// mixed comparisons treat the missing derivatives as zero
template<bool ops,class P,class A,class L> void mixed(const string&l,const P&p,const A&a,L lift){ VD x,y; ap(x,lift(p)); ap(y,a); VD d=diffs(x,y); double e=seps(); int w=vx::choose("form",ops?4:2); if(w==0) judge(l+" Equal",Equal(p,a,e),d,e); if(w==1) judge(l+" Equal swapped",Equal(a,p,e),d,e); if constexpr(ops){ if(w==2) judge(l+" ==",p==a,d,KDL::epsilon); if(w==3) judge(l+" swapped !=",!(a!=p),d,KDL::epsilon); } }
VX_CASE(mixed_vel){ int k=vx::choose("type",4); if(k==0) mixed<true>("VectorVel/Vector",svec("p"),svv("a"),[](const Vector&v){ return VectorVel(v); }); if(k==1) mixed<true>("RotationVel/Rotation",skmat("p"),srv("a"),[](const Rotation&v){ return RotationVel(v); }); if(k==2) mixed<true>("FrameVel/Frame",sframe_free("p"),FrameVel(srv("a"),svv("b")),[](const Frame&v){ return FrameVel(v); }); if(k==3) mixed<true>("TwistVel/Twist",stwist("p"),TwistVel(svv("a"),svv("b")),[](const Twist&v){ return TwistVel(VectorVel(v.vel),VectorVel(v.rot)); }); }
VX_CASE(mixed_acc){ int k=vx::choose("type",4); if(k==0) mixed<false>("VectorAcc/Vector",svec("p"),sva("a"),[](const Vector&v){ return VectorAcc(v); }); if(k==1) mixed<false>("RotationAcc/Rotation",skmat("p"),sra("a"),[](const Rotation&v){ return RotationAcc(v); }); if(k==2) mixed<false>("FrameAcc/Frame",sframe_free("p"),FrameAcc(sra("a"),sva("b")),[](const Frame&v){ return FrameAcc(RotationAcc(v.M),VectorAcc(v.p)); }); if(k==3) mixed<false>("TwistAcc/Twist",stwist("p"),TwistAcc(sva("a"),sva("b")),[](const Twist&v){ return TwistAcc(VectorAcc(v.vel),VectorAcc(v.rot)); }); }
VX_CASE(jntarray){ int n=vx::choose("n",4); self2: { JntArray a=sja("a",n),b=sja("b",n); VD x,y; ap(x,a); ap(y,b); VD d=diffs(x,y); if(vx::flip("op==")) judge("JntArray ==",a==b,d,KDL::epsilon); else pair_case("JntArray",a,b,d,false); } }
VX_CASE(jntarrayvel){ int n=vx::choose("n",3); eqonly("JntArrayVel",JntArrayVel(sja("a",n),sja("av",n)),JntArrayVel(sja("b",n),sja("bv",n))); }
VX_CASE(jntarrayacc){ int n=vx::choose("n",3); eqonly("JntArrayAcc",JntArrayAcc(sja("a",n),sja("av",n),sja("aa",n)),JntArrayAcc(sja("b",n),sja("bv",n),sja("ba",n))); }
template<int N> void jaccase(){ int n=vx::choose("n",N); Jacobian a=sjac("a",n),b=sjac("b",n); VD x,y; ap(x,a); ap(y,b); both("Jacobian",a,b,diffs(x,y)); }
VX_CASE(jacobian){ jaccase<2>(); }
VX_CASE_THOROUGH(jacobian2){ jaccase<3>(); }
VX_CASE(jntspaceinertia){ int n=vx::choose("n",3); JntSpaceInertiaMatrix a=sjm("a",n),b=sjm("b",n); VD x,y; ap(x,a); ap(y,b); VD d=diffs(x,y); if(vx::flip("op==")) judge("JntSpaceInertiaMatrix ==",a==b,d,KDL::epsilon); else pair_case("JntSpaceInertiaMatrix",a,b,d,false); }
VX_CASE(sizes){ int n=vx::choose("n",3),m=vx::choose("m",3); vx::assume(n!=m); vx::check("JntArray size",!Equal(sja("a",n),sja("b",m),1e9)); vx::check("Jacobian size",!Equal(sjac("c",n),sjac("d",m),1e9)); vx::check("JntSpaceInertiaMatrix size",!Equal(sjm("e",n),sjm("f",m),1e9)); vx::check("JntArrayVel size",!Equal(JntArrayVel(sja("g",n),sja("h",n)),JntArrayVel(sja("i",m),sja("j",m)),1e9)); vx::check("JntArrayAcc size",!Equal(JntArrayAcc(sja("k",n),sja("l",n),sja("o",n)),JntArrayAcc(sja("p",m),sja("q",m),sja("r",m)),1e9)); }
VX_CASE(hashes){ Frame F=sframe_free("F"),G(F); vx::check("hash Vector",std::hash<Vector>()(F.p)==std::hash<Vector>()(G.p)); vx::check("hash Twist",std::hash<Twist>()(Twist(F.p,F.p))==std::hash<Twist>()(Twist(G.p,G.p))); vx::check("hash Wrench",std::hash<Wrench>()(Wrench(F.p,F.p))==std::hash<Wrench>()(Wrench(G.p,G.p))); Vector2 v=sv2("v"),w(v); vx::check("hash Vector2",std::hash<Vector2>()(v)==std::hash<Vector2>()(w)); }
VX_CASE(hash_rotation){ Frame F(kr(mul(rotz(vx::real("za")),rotx(0.5))),svec("p")),G(F); vx::check("hash Rotation",std::hash<Rotation>()(F.M)==std::hash<Rotation>()(G.M)); vx::check("hash Frame",std::hash<Frame>()(F)==std::hash<Frame>()(G)); Rotation2 r(vx::real("a")),s(r); vx::check("hash Rotation2",std::hash<Rotation2>()(r)==std::hash<Rotation2>()(s)); Frame2 f(r,Vector2(1,2)),g(f); vx::check("hash Frame2",std::hash<Frame2>()(f)==std::hash<Frame2>()(g)); }
