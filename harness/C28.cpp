// SRC: utilities/ldl_solver_eigen utilities/svd_eigen_HH utilities/svd_HH utilities/svd_eigen_Macie jacobian jntarray frames utilities/utility
// BOUNDS: LDL for symmetric matrices with non-zero leading pivots of size 1..4; singular values of columns (1..6 x 1), of matrices with orthogonal columns (any rotation, any scales including zero and negative ones, any column order, up to 6x6), of rank-one pairs of columns and rows, of all 2x2 (triangular and general) matrices; iteration limits 0..30
#include "kx.h"
#include <utilities/ldl_solver_eigen.hpp>
#include <utilities/svd_eigen_HH.hpp>
#include <utilities/svd_HH.hpp>
#include <utilities/svd_eigen_Macie.hpp>
#include <solveri.hpp>
using namespace KDL; using namespace kx; typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
static void eqm(const string&l,const MX&a,const MX&b,double tol=1e-6){ for(int i=0;i<a.rows();i++) for(int j=0;j<a.cols();j++) eq(idx(l+"(",i)+idx(",",j)+")",a(i,j),b(i,j),tol); }
static MX symm(const string&n,int r,int c){ MX m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=vx::real(idx(n,i,j)); return m; }
static VX symv(const string&n,int r){ VX m(r); for(int i=0;i<r;i++) m(i)=vx::real(idx(n,i)); return m; }
static MX mm(const MX&a,const MX&b){ MX r(a.rows(),b.cols()); for(int i=0;i<a.rows();i++) for(int j=0;j<b.cols();j++){ double s=0; for(int k=0;k<a.cols();k++) s=s+a(i,k)*b(k,j); r(i,j)=s; } return r; }
static MX tp(const MX&a){ MX r(a.cols(),a.rows()); for(int i=0;i<a.rows();i++) for(int j=0;j<a.cols();j++) r(j,i)=a(i,j); return r; }
// ---- LDL
static void ldl(int n){ MX L0=MX::Zero(n,n); VX D0(n); for(int i=0;i<n;i++){ L0(i,i)=1; for(int j=0;j<i;j++) L0(i,j)=vx::real(idx("l",i,j)); D0(i)=vx::real_s(idx("d",i),0.1,3); vx::assume_ne(D0(i),0.0); } MX DD=MX::Zero(n,n); for(int i=0;i<n;i++) DD(i,i)=D0(i); MX A=mm(mm(L0,DD),tp(L0)); VX v=symv("v",n); MX L=symm("dirty",n,n); VX D=symv("dirtyd",n),t=symv("dirtyt",n),q=symv("dirtyq",n); MX A1=A; VX v1=v;
  vx::check("code",ldl_solver_eigen(A,v,L,D,t,q)==SolverI::E_NOERROR); eqm("L",L,L0); for(int i=0;i<n;i++) eq(idx("D",i),D(i),D0(i)); for(int i=0;i<n;i++){ double s=0; for(int j=0;j<n;j++) s=s+A(i,j)*q(j); eq(idx("A x = v ",i),s,v(i)); } eqm("A untouched",A,A1); eqm("v untouched",v,v1); }
VX_CASE(ldl1){ ldl(1); } VX_CASE(ldl2){ ldl(2); } VX_CASE(ldl3){ ldl(3); } VX_CASE(ldl4){ ldl(4); } VX_CASE_THOROUGH(ldl5){ ldl(5); }
VX_CASE(ldl_sizes){ int n=vx::choose("n",4),w=vx::choose("wrong",7),d=vx::flip("bigger")?1:-1; int e[7]; for(int i=0;i<7;i++) e[i]=n+(i==w?d:0); for(int i=0;i<7;i++) if(e[i]<0) return; MX A=MX::Identity(n,e[0]),L=MX::Constant(e[2],e[3],7); VX v=VX::Constant(e[1],7),D=VX::Constant(e[4],7),t=VX::Constant(e[5],7),q=VX::Constant(e[6],7); vx::check("refused",ldl_solver_eigen(A,v,L,D,t,q)==SolverI::E_SIZE_MISMATCH); eqm("L untouched",L,MX::Constant(e[2],e[3],7)); eqm("x untouched",q,VX::Constant(e[6],7)); vx::reach("refused"); }
// ---- singular values
static void judge(const MX&A,const MX&U,const VX&S,const MX&V,bool sorted,bool fullU=false,double tol=1e-5){ int m=A.rows(),n=A.cols(); MX US(m,n); for(int i=0;i<m;i++) for(int j=0;j<n;j++) US(i,j)=U(i,j)*S(j); eqm("U S V'",mm(US,tp(V)),A,tol); for(int j=0;j<n;j++) vx::check_le(idx("singular value not negative ",j),0,S(j)); if(sorted) for(int j=1;j<n;j++) vx::check_le(idx("singular values descend ",j),S(j),S(j-1));
  eqm("V orthonormal",mm(tp(V),V),MX::Identity(n,n),tol); int r=fullU?n:std::min(m,n); for(int i=0;i<n;i++) for(int j=0;j<=i;j++){ double d=0; for(int k=0;k<m;k++) d=d+U(k,i)*U(k,j); // columns of U that belong to a non-zero singular value are orthonormal
      eq(idx("U orthonormal",i,j),(d-(i==j?1:0))*S(i)*S(j),0,tol); } }
static MX orth(const string&n,int m){ MX r=MX::Identity(m,m); if(m==2){ double a=vx::real(n); r(0,0)=r(1,1)=cos(a); r(1,0)=sin(a); r(0,1)=-sin(a); } if(m==3){ M3 R=srot(n); for(int i=0;i<3;i++) for(int j=0;j<3;j++) r(i,j)=R.m[i][j]; } return r; }
// a matrix with orthogonal columns: rows and columns of a scaled rotation permuted, some columns zero
static MX ocols(int m,int n,int rot,bool neg=true){ MX Q=MX::Identity(m,m); MX R=orth("R",rot); int at=vx::choose("block",2)?m-rot:0; Q.block(at,at,rot,rot)=R; MX A(m,n); int sh=vx::choose("shift",n); for(int j=0;j<n;j++){ int k=(j+sh)%n; double s=vx::choose(idx("zero",j),2)?0.0:vx::real(idx("s",j)); if(m<n&&k>=m){ s=0; k=0; } for(int i=0;i<m;i++) A(i,j)=Q(i,k)*s; } return A; }
static void hh(const MX&A,bool mayfail=false,int maxiter=150,double eps=0){ int m=A.rows(),n=A.cols(); MX U=MX::Constant(m,n,7),V=MX::Constant(n,n,7); VX S=VX::Constant(n,7),t=VX::Constant(n,7); int r=svd_eigen_HH(A,U,S,V,t,maxiter,eps); if(!mayfail) vx::check("converged",r==0); if(r==0) judge(A,U,S,V,true); }
static void kd(const MX&A0,bool mayfail=false,int maxiter=150){ MX A=MX::Zero(6,A0.cols()); int at=vx::choose("first row",2)?6-A0.rows():0; for(int i=0;i<A0.rows();i++) A.row(at+i)=A0.row(i); int m=A.rows(),n=A.cols(); Jacobian J(n); J.data=A; std::vector<JntArray> U(m,JntArray(n)),V(n,JntArray(n)); JntArray S(n); SVD_HH svd(J); int r=svd.calculate(J,U,S,V,maxiter); if(!mayfail) vx::check("converged",r==0); if(r==0){ MX u(m,n),v(n,n); for(int i=0;i<m;i++) for(int j=0;j<n;j++) u(i,j)=U[i](j); for(int i=0;i<n;i++) for(int j=0;j<n;j++) v(i,j)=V[i](j); judge(A,u,S.data,v,false); } }

// regular matrices with irrational factors: one free scale s (and t), the QR step runs with exact radicals
static MX regular(bool bnd=false){ double s=vx::real("s"); if(bnd){ vx::assume_lt(1e-3,fabs(s)); vx::assume_lt(fabs(s),1e3); } int k=vx::choose("matrix",6); MX A; if(k<3){ A=MX::Zero(2,2); double v[3][4]={{4,3,0,5},{4,0,3,5},{0,5,4,3}}; for(int i=0;i<4;i++) A(i/2,i%2)=v[k][i]*s; } else if(k==3){ A=MX::Zero(3,2); A(0,0)=4*s; A(2,0)=3*s; A(2,1)=5*s; } else if(k==4){ double t=vx::real("t"); if(bnd){ vx::assume_lt(1e-3,fabs(t)); vx::assume_lt(fabs(t),1e3); } A=MX::Zero(3,3); A(0,0)=4*s; A(0,1)=3*s; A(1,1)=5*s; A(2,2)=t; } else { A=MX::Zero(2,3); A(0,0)=4*s; A(0,2)=3*s; A(1,2)=5*s; } return A; }
static MX signs(){ int n=2+vx::choose("size",2); MX A=MX::Zero(n,n); int sh=vx::choose("shift",n); for(int j=0;j<n;j++) A((j+sh)%n,j)=vx::real(idx("s",j)); return A; }
static MX sing2(){ int k=vx::choose("matrix",4); double a=vx::real("a"),b=vx::real("b"); MX A=MX::Zero(2,2); if(k==0){ A(0,0)=a; A(0,1)=b; } if(k==1){ A(0,1)=a; A(1,1)=b; } if(k==2){ A(0,0)=a; A(1,0)=b; } if(k==3){ A(1,0)=a; A(1,1)=b; } return A; }
static MX rank1(){ double k=vx::real("k"); int m=2+vx::choose("rows",2); MX A(m,2); for(int i=0;i<m;i++){ A(i,0)=vx::real(idx("a",i)); A(i,1)=k*A(i,0); } return A; }
static MX rot2(){ MX Q=orth("R",2); int sh=vx::choose("shift",2); MX A(2,2); for(int j=0;j<2;j++){ double s=vx::real(idx("s",j)); for(int i=0;i<2;i++) A(i,(j+sh)%2)=Q(i,j)*s; } return A; }
static MX sq(int m,int n){ return symm("a",m,n); }
#define FAM(f) VX_CASE(f##_column){ f(sq(1+vx::choose("rows",3),1)); } VX_CASE(f##_row){ f(sq(1,2)); } VX_CASE(f##_signs){ f(signs()); } VX_CASE(f##_rotated){ f(rot2()); } VX_CASE(f##_singular){ f(sing2()); } VX_CASE(f##_rank1){ f(rank1()); } VX_CASE(f##_regular){ f(regular()); }
FAM(hh) FAM(kd)
VX_CASE(hh_limit){ hh(vx::flip("regular")?regular():signs(),true,vx::choose("maxiter",3)); }
VX_CASE(kd_limit){ kd(vx::flip("regular")?regular():signs(),true,vx::choose("maxiter",3)); }
VX_CASE(kd_wide){ MX A=MX::Zero(6,7); for(int i=1;i<6;i++) A(i,i)=i; A(0,vx::choose("at",2)?0:6)=vx::real("a"); A(0,3)=vx::real("b"); A(3,3)=0; kd(A); }
VX_CASE(hh_default_threshold){ int n=2; MX A=MX::Zero(n,n); int sh=vx::choose("shift",n); for(int j=0;j<n;j++){ double s=vx::real_s(idx("s",j),1e-8,1); vx::assume_lt(1e-9,s); A((j+sh)%n,j)=s; } MX U(n,n),V(n,n); VX S(n),t(n); vx::check("converged",svd_eigen_HH(A,U,S,V,t)==0); judge(A,U,S,V,true); }
// Maciejewski: warm started from the factors of an earlier call, in both forms; entries are zero or between 1e-3 and 1e3 in size
static double bounded(const string&n){ double x=vx::real(n); vx::assume_lt(1e-3,fabs(x)); vx::assume_lt(fabs(x),1e3); return x; }
static int mac(const MX&A,MX&U,VX&S,MX&V,bool toggle){ int m=A.rows(),n=A.cols(); MX B=MX::Constant(m,n,7); VX t=VX::Constant(m,7); S.setConstant(7); vx::must_terminate(true); svd_eigen_Macie(A,U,S,V,B,t,1e-15,toggle); vx::must_terminate(false); judge(A,U,S,V,false,false,1e-5); return 0; }
static void mc(const MX&A0){ MX A=A0; if(A.rows()<A.cols()) A=tp(A0); int m=A.rows(),n=A.cols(); MX U=MX::Identity(m,m),V=MX::Identity(n,n); VX S(n); mac(A,U,S,V,vx::flip("toggle")); }
static double bz(const string&n){ return vx::choose("zero "+n,2)?0.0:bounded(n); }
static MX mdiag(int n){ MX A=MX::Zero(n,n); int sh=vx::choose("shift",n); for(int j=0;j<n;j++) A((j+sh)%n,j)=bz(idx("s",j)); return A; }
static MX msing(){ int k=vx::choose("matrix",4); double a=bounded("a"),b=bounded("b"); MX A=MX::Zero(2,2); if(k==0){ A(0,0)=a; A(0,1)=b; } if(k==1){ A(0,1)=a; A(1,1)=b; } if(k==2){ A(0,0)=a; A(1,0)=b; } if(k==3){ A(1,0)=a; A(1,1)=b; } return A; }
VX_CASE(mc_column){ mc(sq(1+vx::choose("rows",3),1)); }
VX_CASE(mc_signs){ mc(mdiag(2+vx::choose("size",2))); }
VX_CASE(mc_singular){ mc(msing()); }
VX_CASE(mc_regular){ mc(regular(true)); }
VX_CASE(mc_rank1){ double k=bounded("k"); int m=2+vx::choose("rows",2); MX A(m,2); for(int i=0;i<m;i++){ A(i,0)=bz(idx("a",i)); A(i,1)=k*A(i,0); } mc(A); }
VX_CASE(mc_twice){ int n=2; bool tg=vx::flip("toggle"); MX U=MX::Identity(n,n),V=U; VX S(n); MX A1=MX::Zero(2,2),A2=A1; double a=bounded("a"),c=bounded("c"); int k=vx::choose("first",6); if(k==0){ A1(0,0)=3*a; A1(0,1)=4*a; } if(k==1){ A1(0,0)=3*a; A1(1,0)=4*a; } if(k==2){ A1(1,0)=3*a; A1(1,1)=4*a; } if(k==3) A1(1,1)=a; if(k==4){ A1(0,0)=4*a; A1(0,1)=3*a; A1(1,1)=5*a; } if(k==5) A1(1,0)=a; mac(A1,U,S,V,tg); int l=vx::choose("second",4); if(l==0){ A2(0,0)=c; A2(1,1)=2*c; } if(l==1){ A2(0,1)=c; A2(1,0)=3*c; } if(l==2){ A2(0,0)=3*c; A2(0,1)=4*c; A2(1,0)=c; } if(l==3){ A2(0,1)=c; A2(1,1)=c; } mac(A2,U,S,V,!tg); }
