// SRC: frames utilities/utility
#include "kx.h"
using namespace KDL; using namespace kx;
VX_CASE(compose_free){
  Frame F=sframe_free("F"),G=sframe_free("G"); Vector x=svec("x");
  eq("(F*G)*x = F*(G*x)",(F*G)*x,F*(G*x));
  eq("F*x",F*x,mul(of(F.M),of(x))+of(F.p));
  eq("R*x",F.M*x,mul(of(F.M),of(x)));
  eq("R1*R2",F.M*G.M,mul(of(F.M),of(G.M)));
  Frame P=F*G; eq("F*G.M",P.M,mul(of(F.M),of(G.M))); eq("F*G.p",P.p,mul(of(F.M),of(G.p))+of(F.p));
  eq("I*F",Frame::Identity()*F,F); eq("F*I",F*Frame::Identity(),F); eq("default frame",Frame(),Frame::Identity());
  eq("RI*R",Rotation::Identity()*F.M,F.M); eq("default rotation",of(Rotation()),eye()); eq("identity p",of(Frame::Identity().p),v3(0,0,0));
  eq("R^-1 x forms",F.M.Inverse()*x,F.M.Inverse(x)); eq("R^-1 is transpose",of(F.M.Inverse()),tr(of(F.M)));
  eq("Frame(R)",Frame(F.M),Frame(F.M,Vector(0,0,0))); eq("Frame(V)",Frame(F.p),Frame(Rotation::Identity(),F.p));
  Frame A=F; A=A*A; eq("F=F*F",A,F*F); Rotation R=F.M; R=R*R; eq("R=R*R",of(R),mul(of(F.M),of(F.M)));
  Vector y=x; y=F*y; eq("x=F*x",y,F*x); Frame B=F; B=B; eq("F=F",B,F); Frame C(F); eq("copy",C,F);
}
VX_CASE(inverse_proper){
  Frame F=sframe("F"),G=sframe("G"); Vector x=svec("x");
  eq("F*F^-1",F*F.Inverse(),Frame::Identity()); eq("F^-1*F",F.Inverse()*F,Frame::Identity());
  eq("(F*G)^-1",(F*G).Inverse(),G.Inverse()*F.Inverse());
  eq("F.Inverse(F*x)",F.Inverse(F*x),x); eq("F*F.Inverse(x)",F*F.Inverse(x),x); eq("F.Inverse()*x",F.Inverse()*x,F.Inverse(x));
  Frame I=F; I=I.Inverse(); eq("F=F^-1",I,F.Inverse()); Vector y=x; y=F.Inverse(y); eq("x=F^-1 x",y,F.Inverse(x));
  eq("det",dot(of((F*G).M.UnitX()),cross(of((F*G).M.UnitY()),of((F*G).M.UnitZ()))),1.0);
}
VX_CASE(inverse_rot){
  Rotation R=skrot("R"),S=skrot("S"); Vector x=svec("x");
  eq("R*R^-1",R*R.Inverse(),eye()); eq("R^-1*R",R.Inverse()*R,eye());
  Rotation Q=R; Q.SetInverse(); eq("SetInverse",Q,R.Inverse()); Q.SetInverse(); eq("SetInverse twice",Q,R);
  eq("R.Inverse(R*x)",R.Inverse(R*x),x); eq("R*R.Inverse(x)",R*R.Inverse(x),x);
  M3 p=of(R*S); eq("product proper",mul(p,tr(p)),eye());
  eq("(RS)^-1",(R*S).Inverse(),S.Inverse()*R.Inverse());
}
VX_CASE(elements){
  Frame F=sframe_free("F"); Vector a=svec("a"),b=svec("b"),c=svec("c");
  const Frame& cF=F; const Rotation& cR=F.M;
  double d[16]; F.Make4x4(d);
  for(int i=0;i<4;i++) for(int j=0;j<4;j++){ double e=i==3?(j==3?1:0):(j==3?cF.p.data[i]:cR.data[3*i+j]); eq(idx("4x4 ",i,j),d[4*i+j],e); eq(idx("const () ",i,j),cF(i,j),e); eq(idx("() ",i,j),F(i,j),e); }
  for(int i=0;i<3;i++) for(int j=0;j<3;j++){ eq(idx("R const() ",i,j),cR(i,j),cR.data[3*i+j]); double s=vx::real(idx("s",i,j)); Rotation Q=F.M; Q(i,j)=s; for(int k=0;k<9;k++) eq(idx("write R(i,j) ",3*i+j,k),Q.data[k],k==3*i+j?s:F.M.data[k]); }
  Vector col[3]={F.M.UnitX(),F.M.UnitY(),F.M.UnitZ()};
  for(int j=0;j<3;j++){ for(int i=0;i<3;i++) eq(idx("Unit",j,i),col[j].data[i],F.M.data[3*i+j]); Vector e(j==0,j==1,j==2); eq(idx("Unit=R*e",j),col[j],F.M*e); }
  Rotation W(a,b,c); eq("cols x",W.UnitX(),a); eq("cols y",W.UnitY(),b); eq("cols z",W.UnitZ(),c);
  Rotation Z=F.M; Z.UnitX(a); eq("setX",Z.UnitX(),a); eq("setX keeps Y",Z.UnitY(),col[1]); eq("setX keeps Z",Z.UnitZ(),col[2]);
  Z.UnitY(b); eq("setY",Z.UnitY(),b); eq("setY keeps X",Z.UnitX(),a); eq("setY keeps Z",Z.UnitZ(),col[2]);
  Z.UnitZ(c); eq("setZ",Z.UnitZ(),c); eq("setZ keeps X",Z.UnitX(),a); eq("setZ keeps Y",Z.UnitY(),b);
  double e[9]; for(int i=0;i<9;i++) e[i]=F.M.data[i];
  Rotation N(e[0],e[1],e[2],e[3],e[4],e[5],e[6],e[7],e[8]); eq("Rotation(9) row order",N,F.M);
  Rotation K(N); eq("copy",K,N); K=Z; eq("assign",K,Z);
}
