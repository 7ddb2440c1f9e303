// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia jntarray jntarrayvel jacobian framevel chainfksolverpos_recursive chainfksolvervel_recursive chainjnttojacsolver
// BOUNDS: chains of 0..2 segments over all 9 joint types each, 3 segments over 4 types, every segment number, all positions, rates, scales, offsets, origins and tip translations; tip rotations: about one axis by any angle (any rotation at 1 segment); general axis directions fixed to one direction; arms of 7 to 9 joints with given geometry, symbolic positions, rates, scales and offsets
#include "chn.h"
#include <jntarrayvel.hpp>
#include <chainfksolverpos_recursive.hpp>
#include <chainfksolvervel_recursive.hpp>
#include <chainjnttojacsolver.hpp>
using namespace KDL; using namespace kx;
static SC mk(int n,const int*types,int nt,bool sc,int tip){ SC c; for(int i=0;i<n;i++){ SS s; s.j=mkj(idx("j",i),types?types[vx::choose(idx("type",i),nt)]:vx::choose(idx("type",i),9),sc); s.tip=mktip(idx("t",i),tip); c.s.push_back(s); } return c; }
static void eqv(const string&l,const FrameVel&F,const P&T,const Mot&h){ eq(l+" pose",F.GetFrame(),T); eq(l+" twist",F.GetTwist(),twist_of(h,T),1e-4); }
static void judge(const SC&c){ Chain C=c.chain(); int n=c.s.size(),nj=c.nj(); Mot h; std::vector<double> q,qd; for(int i=0;i<nj;i++){ auto x=h.var1(idx("q",i)); q.push_back(x.q); qd.push_back(x.d); }
  ChainFkSolverVel_recursive fk(C); JntArrayVel in(ja(q),ja(qd)); FrameVel F; std::vector<FrameVel> all(n);
  JntArrayVel old(ja(svq("old",nj)),ja(svq("oldd",nj))); fk.JntToCart(old,F); if(n) fk.JntToCart(old,all);
  ChainJntToJacSolver js(C); ChainFkSolverPos_recursive fp(C);
  for(int s=0;s<=n;s++){ vx::check("code",fk.JntToCart(in,F,s)==0&&fk.getError()==0); P T=c.pose(q,s); eqv(idx("segment ",s),F,T,h); Frame G; fp.JntToCart(in.q,G,s); eq("position solver",F.GetFrame(),G);
    Jacobian J(nj); js.JntToJac(in.q,J,s); Twist t; MultiplyJacobian(J,in.qdot,t); eq("Jacobian times rates",F.GetTwist(),t);
    if(s){ std::vector<FrameVel> v(s); vx::check("code (all)",fk.JntToCart(in,v,s)==0); for(int i=0;i<s;i++) eqv("frame "+std::to_string(i)+" of "+std::to_string(s),v[i],c.pose(q,i+1),h); } }
  vx::check("code (tip)",fk.JntToCart(in,F)==0); eqv("tip",F,c.pose(q,n),h); if(n){ vx::check("code (all)",fk.JntToCart(in,all)==0); for(int i=0;i<n;i++) eqv(idx("frame ",i),all[i],c.pose(q,i+1),h); } }
VX_CASE(chain0){ judge(mk(0,0,0,false,2)); }
VX_CASE(chain1){ judge(mk(1,0,9,true,1)); }
VX_CASE(chain2){ judge(mk(2,0,9,true,3)); }
VX_CASE(chain3){ int t[]={0,7,6,4}; judge(mk(3,t,4,false,2)); }
VX_CASE_THOROUGH(chain3_all){ judge(mk(3,0,9,true,3)); }
VX_CASE_THOROUGH(chain4){ int t[]={1,7,6}; judge(mk(4,t,3,false,2)); }
// more joints than a task has degrees of freedom
VX_CASE(arm){ judge(arm()); }
VX_CASE(arm7){ judge(arm7()); }
