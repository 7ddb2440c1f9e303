// Shared harness vocabulary: symbolic KDL values and an independent reference algebra (plain arrays).
#pragma once
#include "vx.h"
#include <frames.hpp>
#include <string>
#include <cmath>
#include <vector>
namespace kx {
using std::string;
typedef vx::Reg _r;
inline string idx(const string&s,int i){ return s+std::to_string(i); }
inline string idx(const string&s,int i,int j){ return s+std::to_string(i)+std::to_string(j); }
// reference algebra --------------------------------------------------------------------------------------
struct V3{ double v[3]; double&operator[](int i){return v[i];} double operator[](int i)const{return v[i];} };
struct M3{ double m[3][3]; };
inline V3 v3(double a,double b,double c){ V3 r; r[0]=a;r[1]=b;r[2]=c; return r; }
inline V3 operator+(V3 a,V3 b){ return v3(a[0]+b[0],a[1]+b[1],a[2]+b[2]); }
inline V3 operator-(V3 a,V3 b){ return v3(a[0]-b[0],a[1]-b[1],a[2]-b[2]); }
inline V3 operator*(double s,V3 a){ return v3(s*a[0],s*a[1],s*a[2]); }
inline V3 cross(V3 a,V3 b){ return v3(a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]); }
inline double dot(V3 a,V3 b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline V3 mul(const M3&m,V3 a){ V3 r; for(int i=0;i<3;i++) r[i]=m.m[i][0]*a[0]+m.m[i][1]*a[1]+m.m[i][2]*a[2]; return r; }
inline V3 mulT(const M3&m,V3 a){ V3 r; for(int i=0;i<3;i++) r[i]=m.m[0][i]*a[0]+m.m[1][i]*a[1]+m.m[2][i]*a[2]; return r; }
inline M3 mul(const M3&a,const M3&b){ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=a.m[i][0]*b.m[0][j]+a.m[i][1]*b.m[1][j]+a.m[i][2]*b.m[2][j]; return r; }
inline M3 tr(const M3&a){ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=a.m[j][i]; return r; }
inline M3 eye(){ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=i==j; return r; }
inline M3 skew(V3 a){ M3 r={{{0,-a[2],a[1]},{a[2],0,-a[0]},{-a[1],a[0],0}}}; return r; }
inline M3 add(const M3&a,const M3&b,double s=1){ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=a.m[i][j]+s*b.m[i][j]; return r; }
inline M3 scale(double s,const M3&a){ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=s*a.m[i][j]; return r; }
inline M3 rotx(double a){ double c=cos(a),s=sin(a); M3 r={{{1,0,0},{0,c,-s},{0,s,c}}}; return r; }
inline M3 roty(double a){ double c=cos(a),s=sin(a); M3 r={{{c,0,s},{0,1,0},{-s,0,c}}}; return r; }
inline M3 rotz(double a){ double c=cos(a),s=sin(a); M3 r={{{c,-s,0},{s,c,0},{0,0,1}}}; return r; }
inline M3 axang(V3 u,double a){ double c=cos(a),s=sin(a); M3 r; M3 k=skew(u); for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=(i==j?c:0.0)+s*k.m[i][j]+(1-c)*u[i]*u[j]; return r; }
// conversions -------------------------------------------------------------------------------------------
inline V3 of(const KDL::Vector&a){ return v3(a.data[0],a.data[1],a.data[2]); }
inline M3 of(const KDL::Rotation&R){ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=R.data[3*i+j]; return r; }
inline KDL::Vector kv(V3 a){ KDL::Vector r; for(int i=0;i<3;i++) r.data[i]=a[i]; return r; }
inline KDL::Rotation kr(const M3&m){ KDL::Rotation R; for(int i=0;i<3;i++) for(int j=0;j<3;j++) R.data[3*i+j]=m.m[i][j]; return R; }
// symbolic values ----------------------------------------------------------------------------------------
inline V3 sv(const string&n){ return v3(vx::real(n+".x"),vx::real(n+".y"),vx::real(n+".z")); }
inline M3 smat(const string&n){ M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=vx::real(n+"."+std::to_string(i)+std::to_string(j)); return r; }
inline M3 srot(const string&n){ double a=vx::real(n+".a"),b=vx::real(n+".b"),c=vx::real(n+".c"); return mul(rotz(a),mul(roty(b),rotx(c))); } // every proper rotation
inline V3 sunit(const string&n){ double a=vx::real(n+".az"),b=vx::real(n+".el"); return v3(cos(b)*cos(a),cos(b)*sin(a),sin(b)); }           // every unit vector
inline KDL::Vector svec(const string&n){ return kv(sv(n)); }
inline KDL::Rotation skrot(const string&n){ return kr(srot(n)); }
inline KDL::Rotation skmat(const string&n){ return kr(smat(n)); }
inline KDL::Frame sframe(const string&n){ return KDL::Frame(skrot(n+".M"),svec(n+".p")); }
inline KDL::Frame sframe_free(const string&n){ return KDL::Frame(skmat(n+".M"),svec(n+".p")); }
inline KDL::Twist stwist(const string&n){ return KDL::Twist(svec(n+".v"),svec(n+".w")); }
inline KDL::Wrench swrench(const string&n){ return KDL::Wrench(svec(n+".f"),svec(n+".t")); }
// comparisons ---------------------------------------------------------------------------------------------
inline void eq(const string&l,double a,double b,double tol=1e-6){ vx::check_eq(l,a,b,tol); }
inline void eq(const string&l,V3 a,V3 b,double tol=1e-6){ for(int i=0;i<3;i++) vx::check_eq(l+"["+std::to_string(i)+"]",a[i],b[i],tol); }
inline void eq(const string&l,const M3&a,const M3&b,double tol=1e-6){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) vx::check_eq(l+"("+std::to_string(i)+","+std::to_string(j)+")",a.m[i][j],b.m[i][j],tol); }
inline void eq(const string&l,const KDL::Vector&a,const KDL::Vector&b,double tol=1e-6){ eq(l,of(a),of(b),tol); }
inline void eq(const string&l,const KDL::Vector&a,V3 b,double tol=1e-6){ eq(l,of(a),b,tol); }
inline void eq(const string&l,const KDL::Rotation&a,const KDL::Rotation&b,double tol=1e-6){ eq(l,of(a),of(b),tol); }
inline void eq(const string&l,const KDL::Rotation&a,const M3&b,double tol=1e-6){ eq(l,of(a),b,tol); }
inline void eq(const string&l,const KDL::Frame&a,const KDL::Frame&b,double tol=1e-6){ eq(l+".M",a.M,b.M,tol); eq(l+".p",a.p,b.p,tol); }
inline void eq(const string&l,const KDL::Twist&a,const KDL::Twist&b,double tol=1e-6){ eq(l+".vel",a.vel,b.vel,tol); eq(l+".rot",a.rot,b.rot,tol); }
inline void eq(const string&l,const KDL::Wrench&a,const KDL::Wrench&b,double tol=1e-6){ eq(l+".force",a.force,b.force,tol); eq(l+".torque",a.torque,b.torque,tol); }
}
