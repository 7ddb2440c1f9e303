// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia articulatedbodyinertia jntarray jntspaceinertiamatrix chaindynparam chainidsolver_recursive_newton_euler
// BOUNDS: chains of 0..2 segments over all 9 joint types (1 segment: any proper tip rotation and full inertia; 2 segments: first tip rotated about one axis, second translated), 3 segments over 4 types with translated tips; all masses, cogs, inertias, rotor inertias, gravity vectors, positions, rates, scales and offsets (3 segments: unit scale); general axis directions fixed to one direction; arms of 2, 3, 4 and 7 revolute and 7 to 9 mixed joints with given geometry and inertias, symbolic rotor inertias, gravity, positions, rates, scales and offsets
#include "dyn.h"
#include <chaindynparam.hpp>
#include <jntspaceinertiamatrix.hpp>
using namespace KDL; using namespace kx;
static void judge(const DC&d){ Chain C=d.chain(); int n=d.nj(); ChainDynParam S(C,kv(d.g)); std::vector<double> q=svq("q",n),qd=svq("qd",n),old=svq("old",n); 
  JntSpaceInertiaMatrix H(n); JntArray c(n),g(n); S.JntToMass(ja(old),H); S.JntToCoriolis(ja(old),ja(qd),c); S.JntToGravity(ja(old),g);
  vx::check("mass code",S.JntToMass(ja(q),H)==0); auto M=d.M(q); for(int i=0;i<n;i++) for(int j=0;j<n;j++) eq("mass"+idx("",i,j),H(i,j),M[i][j]);
  vx::check("coriolis code",S.JntToCoriolis(ja(q),ja(qd),c)==0); auto rc=d.cor(q,qd); for(int i=0;i<n;i++) eq(idx("coriolis",i),c(i),rc[i],1e-3);
  vx::check("gravity code",S.JntToGravity(ja(q),g)==0); auto rg=d.grav(q); for(int i=0;i<n;i++) eq(idx("gravity",i),g(i),rg[i],1e-3); 
  // the three terms sum to the inverse dynamics torque
  std::vector<double> qdd=svq("qdd",n); JntArray t(n); ChainIdSolver_RNE id(C,kv(d.g)); Wrenches f(d.ns(),Wrench::Zero()); vx::check("id code",id.CartToJnt(ja(q),ja(qd),ja(qdd),f,t)==0); JntArray hq(n); Multiply(H,ja(qdd),hq); for(int i=0;i<n;i++) eq(idx("sum of terms",i),t(i),hq(i)+c(i)+g(i)); }
static const int FREE[]={1,2,2}, TR[]={2,2,2}, RX[]={3,2,2};
VX_CASE(chain0){ judge(mkd(0,0,0,true,FREE,0)); }
VX_CASE(chain1){ judge(mkd(1,0,0,true,FREE,0)); }
VX_CASE(chain2){ judge(mkd(2,0,0,true,RX,1)); }
VX_CASE(chain2_full_inertia){ int t[]={7,8}; judge(mkd(2,t,2,true,RX,0)); }
VX_CASE_THOROUGH(chain2_general){ int t[]={7,8,6}; judge(mkd(2,t,3,true,FREE,0)); }
VX_CASE(chain3){ int t[]={0,7,5,6}; judge(mkd(3,t,4,false,TR,1)); }
VX_CASE_THOROUGH(chain3_all){ judge(mkd(3,0,9,true,TR,1)); }
VX_CASE_THOROUGH(chain4){ int t[]={2,5,6}; static const int T4[]={2,2,2,2}; judge(mkd(4,t,3,false,T4,2)); }
// more joints than a task has degrees of freedom; arms of turning joints (given geometry and inertias)
VX_CASE(arm){ judge(dynarm(arm())); }
VX_CASE(arm3){ static const int t[]={2,1,0}; judge(dynarm(t,3)); }
VX_CASE(arm4){ static const int t[]={2,1,1,2}; judge(dynarm(t,4)); }
VX_CASE(arm7){ static const int t[]={2,1,2,1,2,1,2}; judge(dynarm(t,7)); }
