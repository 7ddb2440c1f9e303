// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia jntarray jntarrayvel framevel jacobian chainfksolverpos_recursive chainjnttojacsolver chainjnttojacdotsolver
// BOUNDS: chains of 0..2 segments over all 9 joint types, 3 segments over 4 types, all three representations, every segment number and lock pattern, all positions and rates, scales and offsets, tip translations (tip rotations at 1 and 2 segments); general axis directions fixed to one direction; arms of 7 to 9 joints with given geometry, symbolic positions, rates, scales and offsets
#include "chn.h"
#include <jntarrayvel.hpp>
#include <chainjnttojacdotsolver.hpp>
using namespace KDL; using namespace kx;
static SC mk(int n,const int*types,int nt,bool sc,int tip){ SC c; for(int i=0;i<n;i++){ SS s; s.j=mkj(idx("j",i),types?types[vx::choose(idx("type",i),nt)]:vx::choose(idx("type",i),9),sc); s.tip=mktip(idx("t",i),tip); c.s.push_back(s); } return c; }
typedef ChainJntToJacDotSolver S;
static void judge(const SC&c,bool locks){ Chain C=c.chain(); int n=c.s.size(),nj=c.nj(); Mot h; std::vector<double> q,qd; std::vector<bool> lock(nj,false); if(locks) for(int i=0;i<nj;i++) lock[i]=vx::flip(idx("lock",i)); int nu=0; for(int i=0;i<nj;i++) nu+=!lock[i];
  for(int i=0;i<nj;i++){ if(lock[i]){ q.push_back(vx::real(idx("q",i))); qd.push_back(vx::real(idx("ql",i))); } else { auto x=h.var1(idx("q",i)); q.push_back(x.q); qd.push_back(x.d); } }
  S js(C); if(locks) vx::check("lock code",js.setLockedJoints(lock)==0); JntArrayVel in(ja(q),ja(qd)),old(ja(svq("old",nj)),ja(svq("oldd",nj))); Jacobian J(nu); Twist tw; js.JntToJacDot(old,tw);
  static const int reps[]={S::HYBRID,S::BODYFIXED,S::INERTIAL}; 
  for(int r=0;r<3;r++){ if(r||vx::flip("explicit hybrid")) js.setRepresentation(reps[r]); string l=idx("representation ",r);
    for(int s=-1;s<=n;s++){ int m=s<0?n:s; P T=c.pose(q,m); for(int i=0;i<nu;i++) J.setColumn(i,stwist(idx("g",i))); vx::check(l+" code",js.JntToJacDot(in,J,s)==0&&js.getError()==0); int k=0; Tw sum={v3(0,0,0),v3(0,0,0)};
      for(int j=0;j<c.before(m);j++) if(!lock[j]){ Tw w=c.col(q,j,m); if(r==1) w={mulT(T.R,w.v),mulT(T.R,w.w)}; if(r==2) w.v=w.v-cross(w.w,T.p); Tw d={h.D(w.v),h.D(w.w)}; eq(l+idx(" segment ",m)+idx(" joint ",j),J.getColumn(k++),d,1e-3); sum={sum.v+qd[j]*d.v,sum.w+qd[j]*d.w}; }
      for(;k<nu;k++) eq(l+" unused column",J.getColumn(k),Twist::Zero());
      tw=stwist("gt"); vx::check(l+" code (twist)",js.JntToJacDot(in,tw,s)==0); eq(l+" twist form",tw,sum,1e-3); } } 
  if(locks){ vx::check("unlock",js.setLockedJoints(std::vector<bool>(nj,false))==0); Jacobian K(nj); vx::check("unlocked size accepted",js.JntToJacDot(in,K)==0&&js.JntToJacDot(in,tw)==0); } }
VX_CASE(chain0){ judge(mk(0,0,0,false,2),true); }
VX_CASE(chain1){ judge(mk(1,0,9,true,1),true); }
VX_CASE(chain2){ judge(mk(2,0,9,true,3),false); }
VX_CASE(chain2_locks){ int t[]={0,7,6,4}; judge(mk(2,t,4,true,2),true); }
VX_CASE(chain3){ int t[]={0,7,6,4}; judge(mk(3,t,4,false,2),false); }
VX_CASE(chain3_locks){ int t[]={7,6}; judge(mk(3,t,2,false,2),true); }
VX_CASE_THOROUGH(chain3_all){ judge(mk(3,0,9,true,3),false); }
VX_CASE_THOROUGH(chain3_all_locks){ int t[]={0,7,6,4}; judge(mk(3,t,4,true,2),true); }
// more joints than a task has degrees of freedom
VX_CASE(arm){ judge(arm(),false); }
VX_CASE(arm7){ judge(arm7(),false); }
