// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia jntarray jacobian chainfksolverpos_recursive solveri
// BOUNDS: chains of 0..3 segments over all 9 joint types each (quick: 2 segments exhaustively, 3 segments over 5 types; 4 segments over 3 types), every segment number, all positions, scales, offsets, origins and tip frames; general axis directions fixed to one direction (any direction at 1 segment, thorough); arms of 7 to 9 joints (the seven-axis revolute arm, mixed arms with a fixed joint) with given geometry, symbolic positions, scales and offsets
#include "chn.h"
#include <chainfksolverpos_recursive.hpp>
using namespace KDL; using namespace kx;
static SC mk(int n,const int*types,int nt,bool sa=false,int tip=0){ SC c; for(int i=0;i<n;i++){ SS s; s.j=mkj(idx("j",i),types?types[vx::choose(idx("type",i),nt)]:vx::choose(idx("type",i),9),true,sa); s.tip=mktip(idx("t",i),tip); c.s.push_back(s); } return c; }
static void judge(const SC&c){ Chain C=c.chain(); int n=c.s.size(),nj=c.nj(); auto q=svq("q",nj),q2=svq("old",nj); ChainFkSolverPos_recursive fk(C); JntArray Q=ja(q); 
  Frame F; std::vector<Frame> all(n);
  fk.JntToCart(ja(q2),F); if(n) fk.JntToCart(ja(q2),all);                       // history: earlier queries leave no trace
  for(int s=0;s<=n;s++){ F=kf(P{smat("g"),sv("gp")}); vx::check("return code",fk.JntToCart(Q,F,s)==0&&fk.getError()==0); eq(idx("pose of segment ",s),F,c.pose(q,s)); if(s){ std::vector<Frame> v(s); vx::check("return code (all)",fk.JntToCart(Q,v,s)==0); for(int i=0;i<s;i++) eq("frame "+std::to_string(i)+" of "+std::to_string(s),v[i],c.pose(q,i+1)); } }
  vx::check("return code (tip)",fk.JntToCart(Q,F)==0); eq("tip",F,c.pose(q,n)); if(n){ vx::check("return code (all)",fk.JntToCart(Q,all)==0); for(int i=0;i<n;i++) eq(idx("frame ",i),all[i],c.pose(q,i+1)); }
  for(int i=0;i<nj;i++) eq("q untouched",Q(i),q[i]); }
VX_CASE(chain0){ judge(mk(0,0,0)); }
VX_CASE(chain1){ judge(mk(1,0,9)); }
VX_CASE(chain2){ judge(mk(2,0,9)); }
VX_CASE(chain3){ int t[]={0,2,4,6,8}; judge(mk(3,t,5)); }
VX_CASE(chain4){ int t[]={7,6,3}; judge(mk(4,t,3)); }
VX_CASE_THOROUGH(chain3_all){ judge(mk(3,0,9)); }
VX_CASE_THOROUGH(chain5){ int t[]={1,6,5}; judge(mk(5,t,3)); }
VX_CASE_THOROUGH(chain1_axis){ int t[]={7,8}; judge(mk(1,t,2,true)); }
VX_CASE(proper){ int t[]={0,7,6}; judge(mk(2,t,3,false,1)); }
// the chain is held by reference: edits followed by an update are seen
VX_CASE(edited){ SC c=mk(1,0,9); Chain C=c.chain(); ChainFkSolverPos_recursive fk(C); Frame F; fk.JntToCart(ja(svq("q",c.nj())),F); SS s; s.j=mkj("jx",vx::choose("typex",9)); s.tip=mktip("tx",0); c.s.push_back(s); C.addSegment(s.seg("x")); fk.updateInternalDataStructures(); auto q=svq("q",c.nj()); vx::check("code",fk.JntToCart(ja(q),F)==0); eq("tip",F,c.pose(q,2)); }
// more joints than a task has degrees of freedom
VX_CASE(arm){ judge(arm()); }
VX_CASE(arm7){ judge(arm7()); }
