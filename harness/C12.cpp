// SRC: frames utilities/utility joint
// BOUNDS: every joint type and constructor, all axes, origins, scales, offsets, positions and rates
#include "mot.h"
#include <joint.hpp>
using namespace KDL; using namespace kx;
static const Joint::JointType TY[9]={Joint::RotX,Joint::RotY,Joint::RotZ,Joint::TransX,Joint::TransY,Joint::TransZ,Joint::Fixed,Joint::RotAxis,Joint::TransAxis};
static const char*NM[9]={"RotX","RotY","RotZ","TransX","TransY","TransZ","Fixed","RotAxis","TransAxis"};
struct X{ Joint j; int k; V3 u,o; double sc,off,in,da,st; bool named; };
static X mk(){ int k=vx::choose("type",9); bool nm=vx::flip("named"),defs=vx::flip("defaults"); X x; x.k=k; x.named=nm; x.sc=defs?1:vx::real("scale"); x.off=defs?0:vx::real("offset"); x.in=defs?0:vx::real("inertia"); x.da=defs?0:vx::real("damping"); x.st=defs?0:vx::real("stiffness"); x.o=v3(0,0,0); x.u=v3(k%3==0,k%3==1,k%3==2);
  if(k>=7){ x.u=sunit("u"); x.o=sv("o"); double L=vx::real("L"); vx::assume_lt(1e-3,L); Vector ax=kv(L*x.u); x.j=defs?(nm?Joint("jn",kv(x.o),ax,TY[k]):Joint(kv(x.o),ax,TY[k])):nm?Joint("jn",kv(x.o),ax,TY[k],x.sc,x.off,x.in,x.da,x.st):Joint(kv(x.o),ax,TY[k],x.sc,x.off,x.in,x.da,x.st); }
  else x.j=defs?(nm?Joint("jn",TY[k]):Joint(TY[k])):nm?Joint("jn",TY[k],x.sc,x.off,x.in,x.da,x.st):Joint(TY[k],x.sc,x.off,x.in,x.da,x.st); return x; }
static void judge(const X&x,const Joint&j,const string&l){ double q=vx::real("q"),qd=vx::real("qd"); double m=x.sc*q+x.off; Frame F=j.pose(q); M3 R=eye(); V3 p=x.o;
  bool rot=x.k<3||x.k==7,fx=x.k==6; if(fx){ p=v3(0,0,0); } else if(rot) R=axang(x.u,m); else p=x.o+m*x.u;
  eq(l+" pose R",F.M,R); eq(l+" pose p",F.p,p);
  Twist t=j.twist(qd); double k=x.sc*qd; eq(l+" twist vel",t.vel,(rot||fx?0.0:1.0)*(k*x.u)); eq(l+" twist rot",t.rot,(rot?1.0:0.0)*(k*x.u));
  M3 dR; V3 dp; for(int i=0;i<3;i++){ dp[i]=vx::diff(F.p.data[i],q)*qd; for(int c=0;c<3;c++) dR.m[i][c]=vx::diff(F.M.data[3*i+c],q)*qd; } eq(l+" d/dt R",mul(skew(of(t.rot)),of(F.M)),dR,1e-4); eq(l+" d/dt p",of(t.vel),dp,1e-4);
  eq(l+" axis",j.JointAxis(),fx?v3(0,0,0):x.u); eq(l+" origin",j.JointOrigin(),x.o); if(x.k>=7){ eq(l+" getAxis",j.getAxis(),x.u); eq(l+" getOrigin",j.getOrigin(),x.o); }
  eq(l+" scale",j.getScale(),x.sc); eq(l+" offset",j.getOffset(),x.off); eq(l+" inertia",j.getInertia(),x.in); eq(l+" damping",j.getDamping(),x.da); eq(l+" stiffness",j.getStiffness(),x.st);
  vx::check(l+" type",j.getType()==TY[x.k]); vx::check(l+" type name",j.getTypeName()==NM[x.k]); vx::check(l+" name",j.getName()==(x.named?"jn":"NoName")); }
VX_CASE(joint){ X x=mk(); judge(x,x.j,"joint"); }
VX_CASE(joint_copy){ X x=mk(); Joint c(x.j); judge(x,c,"copy"); Joint d(Joint::RotY,2,3,4,5,6); d=x.j; x.j=Joint("other",Joint::TransZ,7,8,9,1,2); judge(x,d,"assigned"); }
VX_CASE(history){ X x=mk(); double q0=vx::real("q0"),qd0=vx::real("qd0"); x.j.pose(q0); x.j.twist(qd0); judge(x,x.j,"after other queries"); }
VX_CASE(bad_type){ int k=vx::choose("type",9); bool nm=vx::flip("named"); bool thrown=false; try{ if(k>=7){ if(nm) Joint j("n",TY[k]); else Joint j(TY[k]); } else { if(nm) Joint j("n",Vector(1,2,3),Vector(0,0,1),TY[k]); else Joint j(Vector(1,2,3),Vector(0,0,1),TY[k]); } }catch(std::exception&e){ thrown=true; vx::check("description",string(e.what()).size()>0); } vx::check("axis constructor and type must match",thrown); vx::check("None is Fixed",Joint::None==Joint::Fixed); Joint d; vx::check("default is fixed",d.getType()==Joint::Fixed); }
