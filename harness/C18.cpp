// SRC: frames utilities/utility jntarray jntarrayvel framevel jacobian
// BOUNDS: Jacobians with 0..3 columns (the transformations also with 7 and 8; thorough 0..6), all real entries, rotations (any 3x3 entries), frames, points and rates; all resize pairs within 0..4
#include "mot.h"
#include <jacobian.hpp>
#include <jntarray.hpp>
using namespace KDL; using namespace kx;
static Jacobian sj(const string&n,int c){ Jacobian J(c); for(int j=0;j<c;j++) for(int i=0;i<6;i++) J(i,j)=vx::real(idx(n,i,j)); return J; }
static void col(const string&l,const Jacobian&J,int j,const Twist&t){ for(int i=0;i<3;i++){ eq(l+idx(" v",i,j),J(i,j),t.vel.data[i]); eq(l+idx(" w",i,j),J(i+3,j),t.rot.data[i]); } eq(l+" column",J.getColumn(j),t); }
static Twist tw(const Jacobian&J,int j){ return Twist(Vector(J(0,j),J(1,j),J(2,j)),Vector(J(3,j),J(4,j),J(5,j))); }
static void same(const string&l,const Jacobian&A,const Jacobian&B){ vx::check(l+" size",A.columns()==B.columns()&&A.rows()==6); for(unsigned j=0;j<A.columns();j++) col(l,A,j,tw(B,j)); }
static void transforms(int N,int lo=0){ int c=lo+vx::choose("columns",N-lo+1); Jacobian J=sj("J",c),J0=J; Rotation R=skmat("R"); Vector p=svec("p"); Frame F(skmat("FR"),svec("Fp")); V3 fp=of(F.p);
  auto rp=[&](const Twist&t){ return Twist(kv(of(t.vel)+cross(of(t.rot),of(p))),t.rot); }; auto cb=[&](const Twist&t){ return Twist(kv(mul(of(R),of(t.vel))),kv(mul(of(R),of(t.rot)))); }; auto cf=[&](const Twist&t){ V3 w=mul(of(F.M),of(t.rot)); return Twist(kv(mul(of(F.M),of(t.vel))+cross(fp,w)),kv(w)); };
  Jacobian D=sj("D",c); vx::check("ok",changeRefPoint(J,p,D)); for(int j=0;j<c;j++) col("changeRefPoint",D,j,rp(tw(J0,j))); same("source",J,J0); Jacobian K=J; K.changeRefPoint(p); same("in place RefPoint",K,D); K=J; vx::check("ok",changeRefPoint(K,p,K)); same("aliased RefPoint",K,D);
  D=sj("E",c); vx::check("ok",changeBase(J,R,D)); for(int j=0;j<c;j++) col("changeBase",D,j,cb(tw(J0,j))); K=J; K.changeBase(R); same("in place Base",K,D); K=J; vx::check("ok",changeBase(K,R,K)); same("aliased Base",K,D);
  D=sj("G",c); vx::check("ok",changeRefFrame(J,F,D)); for(int j=0;j<c;j++) col("changeRefFrame",D,j,cf(tw(J0,j))); K=J; K.changeRefFrame(F); same("in place Frame",K,D); K=J; vx::check("ok",changeRefFrame(K,F,K)); same("aliased Frame",K,D); }
VX_CASE(transform){ transforms(3); } VX_CASE(redundant){ transforms(8,7); } VX_CASE_THOROUGH(transform6){ transforms(6); }
VX_CASE(mismatch){ int a=vx::choose("a",4),b=vx::choose("b",4); vx::assume(a!=b); Jacobian J=sj("J",a),D=sj("D",b),D0=D; vx::check("refused",!changeRefPoint(J,svec("p"),D)&&!changeBase(J,skmat("R"),D)&&!changeRefFrame(J,Frame(skmat("M"),svec("q")),D)); same("destination",D,D0); }
VX_CASE(access){ int c=1+vx::choose("columns",3),k=vx::choose("k",3); vx::assume(k<c); Jacobian J=sj("J",c),J0=J; Twist t=stwist("t"); J.setColumn(k,t); for(int j=0;j<c;j++) col("setColumn",J,j,j==k?t:tw(J0,j)); int i=vx::choose("i",6); double x=vx::real("x"); Jacobian K=J0; K(i,k)=x; for(int b=0;b<c;b++) for(int a=0;a<6;a++) eq("element",K(a,b),a==i&&b==k?x:J0(a,b)); const Jacobian L(J0); eq("const access",L(i,k),J0(i,k)); vx::check("sizes",L.rows()==6&&(int)L.columns()==c); SetToZero(K); for(int b=0;b<c;b++) for(int a=0;a<6;a++) eq("zero",K(a,b),0); Jacobian Z(c); same("constructed zero",Z,K); }
VX_CASE(resize){ int a=vx::choose("from",5),b=vx::choose("to",5); Jacobian J=sj("J",a),J0=J; J.resize(b); vx::check("size",(int)J.columns()==b&&J.rows()==6); for(int j=0;j<a&&j<b;j++) col("kept",J,j,tw(J0,j)); }
VX_CASE(assign){ int a=vx::choose("from",4),b=vx::choose("to",4); Jacobian A=sj("A",a),B=sj("B",b),A0=A; B=A; same("assigned",B,A0); if(a) B(0,0)=vx::real("x"); same("independent",A,A0); A=A; same("self",A,A0); Jacobian C(A); same("copied",C,A0); Jacobian D; D=A; same("from empty",D,A0); }
VX_CASE(multiply){ int c=vx::choose("columns",4); Jacobian J=sj("J",c); JntArray q(c); for(int j=0;j<c;j++) q(j)=vx::real(idx("q",j)); Twist t=stwist("t"); MultiplyJacobian(J,q,t); for(int i=0;i<6;i++){ double s=0; for(int j=0;j<c;j++) s=s+J(i,j)*q(j); eq(idx("row",i),t(i),s); } }
