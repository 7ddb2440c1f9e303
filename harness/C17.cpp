// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia jntarray jacobian chainfksolverpos_recursive chainjnttojacsolver
// BOUNDS: chains of 0..2 segments over all 9 joint types each, 3 segments over 4 types, every segment number and lock pattern, all positions, scales, offsets, origins and tip translations; tip rotations: about one axis by any angle (any rotation at 1 segment); general axis directions fixed to one direction; arms of 7 to 9 joints with given geometry, symbolic positions, scales and offsets
#include "chn.h"
#include <chainjnttojacsolver.hpp>
using namespace KDL; using namespace kx;
static SC mk(int n,const int*types,int nt,bool sc,int tip){ SC c; for(int i=0;i<n;i++){ SS s; s.j=mkj(idx("j",i),types?types[vx::choose(idx("type",i),nt)]:vx::choose(idx("type",i),9),sc); s.tip=mktip(idx("t",i),tip); c.s.push_back(s); } return c; }
static void cmp(const string&l,const SC&c,const std::vector<double>&q,const Jacobian&J,int s,const std::vector<bool>&lock){ P T=c.pose(q,s); int nj=c.nj(),k=0; for(int j=0;j<c.before(s);j++) if(!lock[j]) eq(l+idx(" column of joint ",j),J.getColumn(k++),twist_wrt(T,q[j]),1e-4); for(;k<nj;k++) eq(l+idx(" unused column ",k),J.getColumn(k),Twist::Zero()); }
static void garbage(Jacobian&J,const string&n){ for(unsigned i=0;i<J.columns();i++) J.setColumn(i,stwist(idx(n,i))); }
static void judge(const SC&c,bool locks){ Chain C=c.chain(); int n=c.s.size(),nj=c.nj(); auto q=svq("q",nj),q2=svq("old",nj); ChainJntToJacSolver js(C); std::vector<bool> none(nj,false),lock(nj,false);
  Jacobian J(nj); garbage(J,"g"); js.JntToJac(ja(q2),J);
  for(int s=-1;s<=n;s++){ garbage(J,"h"); vx::check("code",js.JntToJac(ja(q),J,s)==0&&js.getError()==0); cmp(idx("J",s),c,q,J,s<0?n:s,none); }
  if(locks){ for(int i=0;i<nj;i++) lock[i]=vx::flip(idx("lock",i)); vx::check("lock code",js.setLockedJoints(lock)==0); for(int s=-1;s<=n;s++){ garbage(J,"h"); vx::check("code",js.JntToJac(ja(q),J,s)==0); cmp(idx("locked J",s),c,q,J,s<0?n:s,lock); }
    vx::check("unlock code",js.setLockedJoints(none)==0); js.JntToJac(ja(q),J); cmp("unlocked",c,q,J,n,none); } }
VX_CASE(chain0){ judge(mk(0,0,0,false,2),true); }
VX_CASE(chain1){ judge(mk(1,0,9,true,1),true); }
VX_CASE(chain2){ judge(mk(2,0,9,true,3),true); }
VX_CASE(chain3){ int t[]={0,7,6,4}; judge(mk(3,t,4,false,2),true); }
VX_CASE_THOROUGH(chain3_all){ judge(mk(3,0,9,true,3),true); }
VX_CASE_THOROUGH(chain4){ int t[]={1,7,6}; judge(mk(4,t,3,false,2),true); }
// more joints than a task has degrees of freedom
VX_CASE(arm){ judge(arm(),false); }
VX_CASE(arm7){ judge(arm7(),false); }
