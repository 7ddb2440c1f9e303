// Symbolic joints, segments and chains together with their independent reference kinematics.
#pragma once
#include "mot.h"
#include <chain.hpp>
#include <jntarray.hpp>
namespace kx {
static const KDL::Joint::JointType JT[9]={KDL::Joint::RotX,KDL::Joint::RotY,KDL::Joint::RotZ,KDL::Joint::TransX,KDL::Joint::TransY,KDL::Joint::TransZ,KDL::Joint::Fixed,KDL::Joint::RotAxis,KDL::Joint::TransAxis};
struct P{ M3 R; V3 p; };                                   // a pose
inline P pid(){ return {eye(),v3(0,0,0)}; }
inline P operator*(const P&a,const P&b){ return {mul(a.R,b.R),a.p+mul(a.R,b.p)}; }
inline P pinv(const P&a){ return {tr(a.R),-1.0*mulT(a.R,a.p)}; }
inline KDL::Frame kf(const P&a){ return KDL::Frame(kr(a.R),kv(a.p)); }
inline P of(const KDL::Frame&f){ return {of(f.M),of(f.p)}; }
inline void eq(const string&l,const KDL::Frame&a,const P&b,double tol=1e-6){ eq(l+".M",of(a.M),b.R,tol); eq(l+".p",of(a.p),b.p,tol); }
inline void eq(const string&l,const P&a,const P&b,double tol=1e-6){ eq(l+".M",a.R,b.R,tol); eq(l+".p",a.p,b.p,tol); }
struct Tw{ V3 v,w; };
inline Tw of(const KDL::Twist&t){ return {of(t.vel),of(t.rot)}; }
inline void eq(const string&l,const KDL::Twist&a,const Tw&b,double tol=1e-6){ eq(l+".vel",of(a.vel),b.v,tol); eq(l+".rot",of(a.rot),b.w,tol); }
enum{ PLAIN=0,SCALED=1 };
struct SJ{ int k; V3 u,o; double sc,off; bool moving()const{return k!=6;} bool rot()const{return k<3||k==7;}
  P pose(double q)const{ double m=sc*q+off; if(k==6) return pid(); if(rot()) return {axang(u,m),o}; return {eye(),o+m*u}; } 
  KDL::Joint joint(const string&nm="",double in=0,double da=0,double st=0)const{ string n=nm.empty()?"NoName":nm; if(k>=7) return KDL::Joint(n,kv(o),kv(u),JT[k],sc,off,in,da,st); return KDL::Joint(n,JT[k],sc,off,in,da,st); } };
// axis: 0 a fixed general direction, 1 any direction in one plane
inline SJ mkj(const string&n,int k,bool scaled=true,bool symaxis=false,bool symorg=true){ SJ s; s.k=k; s.sc=scaled?vx::real(n+".scale"):1.0; s.off=scaled?vx::real(n+".off"):0.0; s.o=v3(0,0,0); s.u=v3(k%3==0,k%3==1,k%3==2); if(k>=7){ s.o=symorg?sv(n+".org"):v3(0.3,-0.2,0.1); s.u=symaxis?sunit(n+".axis"):v3(0.36,0.48,0.8); } return s; }
struct SS{ SJ j; P tip; P pose(double q)const{ return j.pose(q)*pinv(j.pose(0))*tip; } KDL::Segment seg(const string&nm="",const KDL::RigidBodyInertia&I=KDL::RigidBodyInertia::Zero(),double in=0)const{ return KDL::Segment(nm.empty()?"NoName":nm,j.joint(nm.empty()?"":nm+"_j",in),kf(tip),I); } };
// tip kinds: 0 free matrix and translation (any real entries), 1 proper rotation + translation, 2 translation only, 3 rotation about one axis + translation
inline P mktip(const string&n,int kind){ P t; t.p=sv(n+".tip"); t.R=kind==0?smat(n+".tipR"):kind==1?srot(n+".tipR"):kind==3?rotx(vx::real(n+".tipR")):eye(); return t; }
struct SC{ std::vector<SS> s; int nj()const{ int n=0; for(auto&x:s) n+=x.j.moving(); return n; }
  P pose(const std::vector<double>&q,int n)const{ P r=pid(); int k=0; for(int i=0;i<n;i++){ double v=s[i].j.moving()?q[k++]:0.0; r=r*s[i].pose(v); } return r; }
  int before(int seg)const{ int k=0; for(int i=0;i<seg;i++) k+=s[i].j.moving(); return k; }
  // geometric Jacobian column of joint j (base axes, reference point at the tip of segment m)
  Tw col(const std::vector<double>&q,int j,int m)const{ int k=0,i=0; for(;;i++) if(s[i].j.moving()){ if(k==j) break; k++; } P A=pose(q,i); V3 a=mul(A.R,s[i].j.u),o=A.p+mul(A.R,s[i].j.o); double sc=s[i].j.sc; if(!s[i].j.rot()) return {sc*a,v3(0,0,0)}; return {sc*cross(a,pose(q,m).p-o),sc*a}; }
  KDL::Chain chain()const{ KDL::Chain c; for(size_t i=0;i<s.size();i++) c.addSegment(s[i].seg(idx("s",i))); return c; } };
inline KDL::JntArray ja(const std::vector<double>&q){ KDL::JntArray r(q.size()); for(size_t i=0;i<q.size();i++) r(i)=q[i]; return r; }
inline std::vector<double> svq(const string&n,int k){ std::vector<double> r; for(int i=0;i<k;i++) r.push_back(vx::real(idx(n,i))); return r; }
// spatial velocity of a pose-valued expression along a motion (base axes, reference point at the pose's origin)
inline Tw twist_of(const Mot&h,const P&x){ M3 d=mul(h.D(x.R),tr(x.R)); return {h.D(x.p),v3(d.m[2][1],d.m[0][2],d.m[1][0])}; }
inline Tw twist_wrt(const P&x,double q){ M3 d; V3 v; for(int i=0;i<3;i++){ v[i]=vx::diff(x.p[i],q); for(int j=0;j<3;j++) d.m[i][j]=vx::diff(x.R.m[i][j],q); } d=mul(d,tr(x.R)); return {v,v3(d.m[2][1],d.m[0][2],d.m[1][0])}; }
// arms with more joints than a task has degrees of freedom: given joint types, fixed tip offsets, two of the joints turn
inline SC arm(const int*types,int n){ SC c; for(int i=0;i<n;i++){ SS s; s.j=mkj(idx("j",i),types[i],true,false,false); s.tip={i==2?M3{{{0,-1,0},{1,0,0},{0,0,1}}}:eye(),v3(0.125*(i+1),0.25-0.0625*i,-0.125)}; c.s.push_back(s); } return c; }
inline SC arm7(){ static const int a[]={2,1,2,1,2,1,2}; return arm(a,7); }   // the usual seven-axis arm
inline SC arm(){ static const int a[]={5,2,3,4,6,0,5,3,4},b[]={2,5,3,4,5,3,1},c[]={3,4,5,0,3,6,8,2}; return vx::choose("arm",3)==0?arm(a,9):vx::flip("arm b")?arm(b,7):arm(c,8); }
}
