// SRC: frames utilities/utility
#include "kx.h"
using namespace KDL; using namespace kx;
VX_CASE(norm){ Vector v=svec("v"); double n=v.Norm(); vx::check_le("norm>=0",0,n);
  vx::assume_lt(1e-9,dot(of(v),of(v))); eq("norm^2",n*n,dot(of(v),of(v))); Vector u=v; double r=u.Normalize(); if(vx::flip("compare")) vx::check_le("norm>=|x|",fabs(v.x()),n); eq("Normalize returns norm",r,n); eq("unit",dot(of(u),of(u)),1.0); eq("direction",n*of(u),of(v)); vx::reach("end"); }
VX_CASE(norm_tiny){ double e=vx::range("e",1e-9,1e-6/2); int k=vx::choose("axis",3); Vector v; v(k)=vx::flip("neg")?-e:e; Vector u=v; double r=u.Normalize(); eq("tiny normalises to default",u,Vector(1,0,0)); eq("tiny returns 0",r,0.0); Vector z; eq("zero norm",z.Norm(),0.0); Vector y; y.Normalize(); eq("zero normalises to default",y,Vector(1,0,0)); }
VX_CASE(norm_eps){ Vector v=svec("v"); double n2=dot(of(v),of(v)); vx::assume_lt(1e-9,n2); double eps=vx::range("eps",0.1,1); Vector u=v; double r=u.Normalize(eps); double n=sqrt(n2); if(r==0){ vx::check_le("below eps",n,eps); eq("default",u,Vector(1,0,0)); } else { vx::check_le("above eps",eps,n); eq("Normalize(eps)",n*of(u),of(v)); eq("returns norm",r,n); } }
VX_CASE(arith){ Vector a=svec("a"),b=svec("b"); double k=vx::real("k"); vx::assume_ne(k,0); V3 A=of(a),B=of(b);
  eq("+",of(a+b),A+B); eq("-",of(a-b),A-B); eq("*k",of(a*k),k*A); eq("k*",of(k*a),k*A); eq("/k",k*of(a/k),A); eq("neg",of(-a),-1.0*A); eq("cross",of(a*b),cross(A,B)); eq("dot",KDL::dot(a,b),dot(A,B));
  Vector c=a; c+=b; eq("+=",of(c),A+B); c=a; c-=b; eq("-=",of(c),A-B); c=a; c+=c; eq("self+=",of(c),2*A); c=a; c-=c; eq("self-=",of(c),v3(0,0,0)); c=a; c.ReverseSign(); eq("ReverseSign",of(c),-1.0*A); c=a; c=c*b; eq("a=a*b",of(c),cross(A,B)); c=b; c=a*c; eq("b=a*b",of(c),cross(A,B)); SetToZero(c); eq("SetToZero",of(c),v3(0,0,0)); eq("Zero",of(Vector::Zero()),v3(0,0,0)); eq("default",of(Vector()),v3(0,0,0));
  const Vector&ca=a; double s=vx::real("s"); for(int i=0;i<3;i++){ eq(idx("()",i),a(i),A[i]); eq(idx("[]",i),a[i],A[i]); eq(idx("c()",i),ca(i),A[i]); eq(idx("c[]",i),ca[i],A[i]); Vector w=a,w2=a,w3=a; w(i)=s; w2[i]=s; if(i==0) w3.x(s); else if(i==1) w3.y(s); else w3.z(s); for(int j=0;j<3;j++){ eq(idx("set()",i,j),w.data[j],i==j?s:A[j]); eq(idx("set[]",i,j),w2.data[j],i==j?s:A[j]); eq(idx("set name",i,j),w3.data[j],i==j?s:A[j]); } }
  eq("x",a.x(),A[0]); eq("y",a.y(),A[1]); eq("z",a.z(),A[2]); Vector n(A[0],A[1],A[2]); eq("ctor",n,a); }
VX_CASE(planes){ Vector v=svec("v"),o=svec("o"); double x=vx::real("px"),y=vx::real("py"); Vector2 p(x,y); Vector w=o; w.Set2DXY(p); eq("Set2DXY",of(w),v3(x,y,0)); w=o; w.Set2DYZ(p); eq("Set2DYZ",of(w),v3(0,x,y)); w=o; w.Set2DZX(p); eq("Set2DZX",of(w),v3(y,0,x));
  Vector2 q; q.Set3DXY(v); eq("Set3DXY x",q(0),v.data[0]); eq("Set3DXY y",q(1),v.data[1]); q.Set3DYZ(v); eq("Set3DYZ x",q(0),v.data[1]); eq("Set3DYZ y",q(1),v.data[2]); q.Set3DZX(v); eq("Set3DZX x",q(0),v.data[2]); eq("Set3DZX y",q(1),v.data[0]);
  Frame F=sframe("F"); w=o; w.Set2DPlane(F,p); eq("Set2DPlane",of(w),mul(of(F.M),v3(x,y,0))+of(F.p)); q.Set3DPlane(F,v); V3 l=mulT(of(F.M),of(v)-of(F.p)); eq("Set3DPlane x",q(0),l[0]); eq("Set3DPlane y",q(1),l[1]); }
static Vector2 sv2(const string&n){ return Vector2(vx::real(n+".x"),vx::real(n+".y")); }
static void eq2(const string&l,const Vector2&a,double x,double y){ eq(l+" x",a(0),x); eq(l+" y",a(1),y); }
VX_CASE(vector2){ Vector2 a=sv2("a"),b=sv2("b"); double k=vx::real("k"); vx::assume_ne(k,0);
  eq2("+",a+b,a(0)+b(0),a(1)+b(1)); eq2("-",a-b,a(0)-b(0),a(1)-b(1)); eq2("*k",a*k,a(0)*k,a(1)*k); eq2("k*",k*a,a(0)*k,a(1)*k); eq2("/k",a/k,a(0)/k,a(1)/k); eq2("neg",-a,-a(0),-a(1)); Vector2 c=a; c+=b; eq2("+=",c,a(0)+b(0),a(1)+b(1)); c=a; c-=b; eq2("-=",c,a(0)-b(0),a(1)-b(1)); c=a; c.ReverseSign(); eq2("Rev",c,-a(0),-a(1)); SetToZero(c); eq2("0",c,0,0); eq2("Zero",Vector2::Zero(),0,0); eq("x()",a.x(),a(0)); eq("y()",a.y(),a(1)); eq("[]0",a[0],a(0)); eq("[]1",a[1],a(1)); }
VX_CASE(vector2_norm){ Vector2 a=sv2("a"); double n2=a(0)*a(0)+a(1)*a(1); vx::assume_lt(1e-9,n2); double n=a.Norm(); eq("norm2",n*n,n2); vx::check_le("norm2>=0",0,n); Vector2 u=a; double r=u.Normalize(); eq("returns",r,n); eq2("dir",u*n,a(0),a(1)); Vector2 z; eq("zero",z.Norm(),0.0); z.Normalize(); eq2("zero default",z,1,0); }
VX_CASE(rotation2){ double a=vx::real("a"),b=vx::real("b"); Vector2 v=sv2("v"); Rotation2 R(a),S=Rotation2::Rot(b),Q; Q.SetRot(a); double c=cos(a),s=sin(a);
  eq2("R*v",R*v,c*v(0)-s*v(1),s*v(0)+c*v(1)); eq2("SetRot",Q*v,c*v(0)-s*v(1),s*v(0)+c*v(1)); eq2("(RS)v",(R*S)*v,(R*(S*v))(0),(R*(S*v))(1)); eq2("Rot(a+b)",Rotation2::Rot(a+b)*v,((R*S)*v)(0),((R*S)*v)(1)); eq2("R^-1(Rv)",R.Inverse(R*v),v(0),v(1)); eq2("R^-1*",R.Inverse()*v,R.Inverse(v)(0),R.Inverse(v)(1)); Rotation2 I=R; I.SetInverse(); eq2("SetInverse",I*v,R.Inverse(v)(0),R.Inverse(v)(1)); eq2("Identity",Rotation2::Identity()*v,v(0),v(1)); I.SetIdentity(); eq2("SetIdentity",I*v,v(0),v(1)); eq2("default",Rotation2()*v,v(0),v(1));
  for(int j=0;j<2;j++){ Vector2 e(j==0,j==1); Vector2 col=R*e; for(int i=0;i<2;i++) eq(idx("element = action",i,j),R(i,j),col(i)); } 
  Rotation2 T(c,s); eq2("ctor(c,s)",T*v,(R*v)(0),(R*v)(1)); double g=R.GetRot(); eq("cos GetRot",cos(g),c); eq("sin GetRot",sin(g),s); }
VX_CASE(frame2){ Rotation2 R(vx::real("a")),S(vx::real("b")); Frame2 F(R,sv2("p")),G(S,sv2("q")); Vector2 v=sv2("v"); Vector2 w=(F*G)*v,z=F*(G*v); eq2("(FG)v",w,z(0),z(1)); z=R*v+F.p; eq2("Fv",F*v,z(0),z(1)); eq2("F^-1(Fv)",F.Inverse(F*v),v(0),v(1)); eq2("F^-1*",F.Inverse()*(F*v),v(0),v(1)); Frame2 I=F; I.SetInverse(); eq2("SetInverse",I*(F*v),v(0),v(1)); I.SetIdentity(); eq2("SetIdentity",I*v,v(0),v(1)); eq2("Identity",Frame2::Identity()*v,v(0),v(1)); eq2("Frame2(V)",Frame2(F.p)*v,v(0)+F.p(0),v(1)+F.p(1)); z=R*v; eq2("Frame2(R)",Frame2(R)*v,z(0),z(1)); const Frame2&cF=F;
  for(int i=0;i<2;i++){ for(int j=0;j<2;j++){ Vector2 e(j==0,j==1); eq(idx("elem",i,j),F(i,j),(R*e)(i)); eq(idx("celem",i,j),cF(i,j),(R*e)(i)); } eq(idx("p",i),F(i,2),F.p(i)); eq(idx("cp",i),cF(i,2),F.p(i)); eq(idx("row2",i),F(2,i),0.0); eq(idx("crow2",i),cF(2,i),0.0); } eq("one",F(2,2),1.0); Frame2 C(F); C=C*C; z=F*(F*v); eq2("F=F*F",C*v,z(0),z(1)); Frame2 A; A=F; eq2("assign",A*v,(F*v)(0),(F*v)(1)); }
