// SRC: frames utilities/utility joint segment chain tree rigidbodyinertia rotationalinertia jntarray jacobian chainfksolverpos_recursive chainjnttojacsolver treefksolverpos_recursive treejnttojacsolver
// BOUNDS: trees of 0..4 segments (single segment with every joint type, paths, forks, forks of paths), every insertion order and name order of the fork, all joint types per segment from the stated lists, every scale, offset, axis direction in one plane (single segment), origin, tip and joint position, every segment of the tree as end point including the root; a branched body of nine segments with given geometry
#include "tre.h"
#include <treefksolverpos_recursive.hpp>
#include <treejnttojacsolver.hpp>
#include <chainfksolverpos_recursive.hpp>
#include <chainjnttojacsolver.hpp>
using namespace KDL; using namespace kx;
static void judge(const ST&T,int e,bool original=true){ Tree t=T.tree(); auto qn=T.qnr(); int n=T.nj(); string seg=T.nm(e); auto q=svq("q",n);
  if(!original){ Tree u("x"); u=t; t=u; }
  vx::check("joints",(int)t.getNrOfJoints()==n); for(size_t i=0;i<qn.size();i++) if(qn[i]>=0) vx::check("joint number",(int)GetTreeElementQNr(t.getSegment(T.name[i])->second)==qn[i]);
  TreeFkSolverPos_recursive fk(t); TreeJntToJacSolver js(t); t.addSegment(Segment("later",Joint(Joint::RotX)),seg);      // the solvers keep the tree they were given
  Frame f(svec("old")); vx::check("code",fk.JntToCart(ja(q),f,seg)==0); P want=T.pose(e,q,qn); eq("pose",f,want);
  Jacobian J(n); for(int c=0;c<n;c++) J.setColumn(c,stwist(idx("oldcol",c))); vx::check("jacobian code",js.JntToJac(ja(q),J,seg)==0); vx::check("jacobian columns",(int)J.columns()==n);
  std::vector<bool> on(n,false); if(e>=0){ SC c=T.branch(e); auto bq=T.bq(e,q,qn); int b=0; for(int s:T.path(e)) if(qn[s]>=0){ Tw w=c.col(bq,b++,c.s.size()); eq(idx("column of joint ",qn[s]),J.getColumn(qn[s]),w,1e-5); on[qn[s]]=true; }
    Chain k; vx::check("branch",t.getChain(T.root,seg,k)); int m=bq.size(); ChainFkSolverPos_recursive cf(k); ChainJntToJacSolver cj(k); Frame g; Jacobian C(m); vx::check("chain codes",cf.JntToCart(ja(bq),g)==0&&cj.JntToJac(ja(bq),C)==0); eq("chain pose",f,of(g)); b=0; for(int s:T.path(e)) if(qn[s]>=0) eq(idx("chain column of joint ",qn[s]),J.getColumn(qn[s]),C.getColumn(b++)); }
  for(int c=0;c<n;c++) if(!on[c]) eq(idx("other joints do not move it ",c),J.getColumn(c),Twist::Zero()); vx::reach("judged"); }
static void refused(const ST&T){ Tree t=T.tree(); int n=T.nj(); TreeFkSolverPos_recursive fk(t); TreeJntToJacSolver js(t); int d=vx::choose("size error",3)-1; auto q=svq("q",n+d<0?0:n+d); bool bad=(int)q.size()!=n; Frame f(svec("old")),f0=f; int dj=vx::choose("columns error",3)-1; int m=n+dj<0?0:n+dj; Jacobian J(m); for(int c=0;c<m;c++) J.setColumn(c,stwist(idx("oldcol",c))); Jacobian J0=J; bool known=vx::flip("known"); string e=known?T.nm(vx::choose("end",T.s.size()+1)-1):"nowhere";
  int r=fk.JntToCart(ja(q),f,e); vx::check("wrong size or unknown segment refused",(r<0)==(bad||!known)&&(r==0||r==-1||r==-2)); if(r<0){ vx::check("which",r==-1?bad:!known); eq("pose untouched",f,of(f0)); }
  r=js.JntToJac(ja(q),J,e); bool bj=bad||m!=n; vx::check("jacobian refused",(r<0)==(bj||!known)&&(r==0||r==-1||r==-2)); if(r<0){ vx::check("which",r==-1?bj:!known); vx::check("columns untouched",(int)J.columns()==m); for(int c=0;c<m;c++) eq(idx("column untouched ",c),J.getColumn(c),J0.getColumn(c)); } }
static const int ALL[]={0,1,2,3,4,5,6,7,8},SOME[]={0,7,8,6},FEW[]={7,5,6};
VX_CASE(empty){ ST T=mkst({},{},{},ALL,1,2); judge(T,-1); }
VX_CASE(single){ judge(mkst({-1},{"a"},{0},ALL,9,1),vx::choose("end",2)-1,vx::flip("original")); }
VX_CASE(single_axis){ static const int t[]={7,8}; judge(mkst({-1},{"a"},{0},t,2,2,true,true),0); }
VX_CASE(path2){ judge(mkst({-1,0},{"b","a"},{0,1},SOME,4,2),vx::choose("end",3)-1); }
VX_CASE(path2_turned){ static const int t[]={7,8,1}; judge(mkst({-1,0},{"b","a"},{0,1},t,3,3),1); }
VX_CASE(path3){ judge(mkst({-1,0,1},{"b","c","a"},{0,1,2},FEW,3,2),vx::choose("end",3)); }
VX_CASE(two_roots){ static const std::vector<int> o[]={{0,1},{1,0}}; int k=vx::choose("order",2); judge(mkst({-1,-1},{"b","a"},o[k],SOME,4,2),vx::choose("end",2),vx::flip("original")); }
VX_CASE(fork){ static const std::vector<int> o[]={{0,1,2},{0,2,1}}; int k=vx::choose("order",2); bool names=vx::flip("names"); judge(mkst({-1,0,0},{"m",names?"z":"a",names?"a":"z"},o[k],FEW,3,2),vx::choose("end",3),vx::flip("original")); }
VX_CASE(fork_of_paths){ static const int t[]={8,7}; static const std::vector<int> o[]={{0,2,1,3},{2,0,3,1},{0,1,2,3}}; int k=vx::choose("order",3); judge(mkst({-1,0,-1,2},{"m","z","a","k"},o[k],t,2,2,false),vx::flip("which")?1:3,vx::flip("original")); }
VX_CASE(refusals){ refused(mkst({-1,0,0},{"m","z","a"},{0,2,1},FEW,3,2)); }
VX_CASE(refusals_without_joints){ static const int t[]={6}; refused(mkst({-1},{"m"},{0},t,1,2)); }
VX_CASE_THOROUGH(path3_all){ judge(mkst({-1,0,1},{"b","c","a"},{0,1,2},ALL,9,2),2); }
VX_CASE_THOROUGH(path4){ judge(mkst({-1,0,1,2},{"b","c","a","d"},{0,1,2,3},FEW,3,2),3); }
VX_CASE_THOROUGH(fork_all){ judge(mkst({-1,0,0},{"m","z","a"},{0,2,1},ALL,9,2),1,false); }
// trees with more joints than a task has degrees of freedom (given geometry): a trunk with two arms
static ST body(){ static const int ty[]={2,5,1,2,6,1,0,4,2,7}; ST T; T.par={-1,0,1,2,3,1,5,6,7,8}; T.name={"trunk","chest","l1","l2","l3","r1","r2","r3","r4","r5"}; static const std::vector<int> o[]={{0,1,2,3,4,5,6,7,8,9},{0,1,5,2,6,3,7,4,8,9},{0,1,5,6,7,8,9,2,3,4}}; T.order=o[vx::choose("order",3)]; SC c=arm(ty,10); T.s=c.s; return T; }
VX_CASE(body){ static const int ends[]={4,9,7,1}; judge(body(),ends[vx::choose("end",4)]); }
