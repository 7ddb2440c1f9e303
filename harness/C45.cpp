// SRC: frames frames_io framevel utilities/utility utilities/utility_io utilities/error_stack joint segment chain tree rigidbodyinertia rotationalinertia articulatedbodyinertia jntarray jntarrayvel jacobian jntspaceinertiamatrix kinfam_io solveri chainfksolverpos_recursive chainfksolvervel_recursive chainiksolverpos_nr chainiksolverpos_nr_jl chainiksolvervel_pinv chainiksolvervel_wdls chainiksolverpos_lma chainiksolvervel_pinv_nso chainiksolvervel_pinv_givens chainjnttojacsolver chainjnttojacdotsolver chainidsolver_recursive_newton_euler chaindynparam utilities/svd_HH utilities/svd_eigen_HH utilities/svd_eigen_Macie
// PYSRC: frames framevel kinfam dynamics
// BOUNDS: every exposed constructor and operation on joints, inertias, segments, chains, trees, joint arrays, Jacobians, joint-space inertias and the solvers, with symbolic values; arrays of 0..3 elements, chains of 2 moving joints (revolute + prismatic/revolute), item indices -2..size+2; inverse solvers on prismatic chains with a mock velocity solver for the iteration
#include "pyk.h"
#include "chn.h"
#include <kinfam_io.hpp>
#include <tree.hpp>
#include <chainfksolverpos_recursive.hpp>
#include <chainfksolvervel_recursive.hpp>
#include <chainiksolverpos_nr.hpp>
#include <chainiksolverpos_nr_jl.hpp>
#include <chainiksolvervel_pinv.hpp>
#include <chainiksolvervel_wdls.hpp>
#include <chainiksolverpos_lma.hpp>
#include <chainiksolvervel_pinv_nso.hpp>
#include <chainiksolvervel_pinv_givens.hpp>
#include <chainjnttojacsolver.hpp>
#include <chainjnttojacdotsolver.hpp>
#include <chainidsolver_recursive_newton_euler.hpp>
#include <chaindynparam.hpp>
// a velocity solver Python code can hand to the iterative position solvers: moves every joint by a fixed gain times the first components of the twist
static int ASKED;
struct MVel:ChainIkSolverVel{ double k; int code; MVel(double a,int c):k(a),code(c){} int CartToJnt(const JntArray&q,const Twist&t,JntArray&o){ ASKED++; for(unsigned i=0;i<o.rows();i++) o(i)=k*t(i); return code; } int CartToJnt(const JntArray&,const FrameVel&,JntArrayVel&){ return -1; } void updateInternalDataStructures(){} };
PYBIND11_EMBEDDED_MODULE(PyKDL,m){ init_frames(m); init_framevel(m); init_kinfam(m); init_dynamics(m); py::class_<MVel,ChainIkSolverVel>(m,"MVel").def(py::init<double,int>()); }
namespace kx{
inline void eq(const string&l,const JntArray&a,const JntArray&b,double tol=1e-6){ eq(l+".rows",a.rows(),b.rows()); for(unsigned i=0;i<a.rows()&&i<b.rows();i++) eq(idx(l,i),a(i),b(i),tol); }
inline void eq(const string&l,const JntArrayVel&a,const JntArrayVel&b,double tol=1e-6){ eq(l+".q",a.q,b.q,tol); eq(l+".qdot",a.qdot,b.qdot,tol); }
inline void eq(const string&l,const Jacobian&a,const Jacobian&b,double tol=1e-6){ eq(l+".columns",a.columns(),b.columns()); for(unsigned i=0;i<6;i++) for(unsigned j=0;j<a.columns()&&j<b.columns();j++) eq(l+"("+std::to_string(i)+","+std::to_string(j)+")",a(i,j),b(i,j),tol); }
inline void eq(const string&l,const JntSpaceInertiaMatrix&a,const JntSpaceInertiaMatrix&b,double tol=1e-6){ eq(l+".rows",a.rows(),b.rows()); for(unsigned i=0;i<a.rows();i++) for(unsigned j=0;j<a.rows();j++) eq(l+"("+std::to_string(i)+","+std::to_string(j)+")",a(i,j),b(i,j),tol); }
inline void eq(const string&l,const RotationalInertia&a,const RotationalInertia&b,double tol=1e-6){ for(int i=0;i<9;i++) eq(idx(l,i),a.data[i],b.data[i],tol); }
inline void eq(const string&l,const RigidBodyInertia&a,const RigidBodyInertia&b,double tol=1e-6){ eq(l+".m",a.getMass(),b.getMass(),tol); eq(l+".I",a.getRotationalInertia(),b.getRotationalInertia(),tol); Twist t(Vector(1,2,3),Vector(5,7,11)); eq(l+"*twist",a*t,b*t,tol); }
inline void eq(const string&l,const Joint&a,const Joint&b,double tol=1e-6){ eq(l+".name",a.getName(),b.getName()); eq(l+".type",(int)a.getType(),(int)b.getType()); eq(l+".axis",a.JointAxis(),b.JointAxis(),tol); eq(l+".origin",a.JointOrigin(),b.JointOrigin(),tol); eq(l+".twist",a.twist(2),b.twist(2),tol); eq(l+".inertia",a.getInertia(),b.getInertia()); eq(l+".damping",a.getDamping(),b.getDamping()); eq(l+".stiffness",a.getStiffness(),b.getStiffness()); eq(l+".pose",a.pose(0.5),b.pose(0.5),tol); }
inline void eq(const string&l,const Segment&a,const Segment&b,double tol=1e-6){ eq(l+".name",a.getName(),b.getName()); eq(l+".joint",a.getJoint(),b.getJoint(),tol); eq(l+".tip",a.getFrameToTip(),b.getFrameToTip(),tol); eq(l+".I",a.getInertia(),b.getInertia(),tol); }
inline void eq(const string&l,const Chain&a,const Chain&b,double tol=1e-6){ eq(l+".joints",a.getNrOfJoints(),b.getNrOfJoints()); eq(l+".segments",a.getNrOfSegments(),b.getNrOfSegments()); for(unsigned i=0;i<a.getNrOfSegments()&&i<b.getNrOfSegments();i++) eq(idx(l,i),a.getSegment(i),b.getSegment(i),tol); }
}
#define VARS Py p; Vector a=svec("a"),b=svec("b"); double s=vx::real("s"),t=vx::real("t"); p.set("a",a); p.set("b",b); p.set("s",s); p.set("t",t)
#define END vx::reach("end")
static const Joint::JointType TY[]={Joint::RotX,Joint::RotY,Joint::RotZ,Joint::TransX,Joint::TransY,Joint::TransZ,Joint::Fixed,Joint::RotAxis,Joint::TransAxis};
static const char*TN[]={"RotX","RotY","RotZ","TransX","TransY","TransZ","Fixed","RotAxis","TransAxis"};
static RotationalInertia srin(const string&n){ return RotationalInertia(vx::real(n+".xx"),vx::real(n+".yy"),vx::real(n+".zz"),vx::real(n+".xy"),vx::real(n+".xz"),vx::real(n+".yz")); }
static RigidBodyInertia srbi(const string&n){ return RigidBodyInertia(vx::real(n+".m"),svec(n+".c"),srin(n+".I")); }
static JntArray sja(const string&n,int k){ return ja(svq(n,k)); }
static Jacobian sjac(const string&n,int k){ Jacobian J(k); for(int i=0;i<k;i++) J.setColumn(i,stwist(idx(n,i))); return J; }
static JntSpaceInertiaMatrix sjsim(const string&n,int k){ JntSpaceInertiaMatrix M(k); for(int i=0;i<k;i++) for(int j=0;j<k;j++) M(i,j)=vx::real(idx(idx(n,i),j)); return M; }
VX_CASE(joint){ Py p; int k=vx::choose("type",9),f=vx::choose("form",k==6?8:k<7?6:5); if(k<6&&f==5) f=7; double sc=vx::real("scale"),of=vx::real("offset"),in=vx::real("inertia"),da=vx::real("damping"),st=vx::real("stiffness"),q=vx::real("q"); Vector o=svec("o"),u(3,0,4); for(auto&x:{std::make_pair("sc",sc),std::make_pair("of",of),std::make_pair("i",in),std::make_pair("d",da),std::make_pair("st",st),std::make_pair("q",q)}) p.set(x.first,x.second); p.set("o",o); p.set("u",u); string T=string("Joint.")+TN[k]; Joint::JointType ty=TY[k];
  if(k<7&&f<8){ Joint j; switch(f){ case 0: p.run("j=Joint('n',"+T+",sc,of,i,d,st)"); j=Joint("n",ty,sc,of,in,da,st); break; case 1: p.run("j=Joint("+T+",sc,of,i,d,st)"); j=Joint(ty,sc,of,in,da,st); break; case 2: p.run("j=Joint(stiffness=st,damping=d,inertia=i,offset=of,scale=sc,type="+T+",name='n')"); j=Joint("n",ty,sc,of,in,da,st); break; case 3: p.run("j=Joint('n',"+T+")"); j=Joint("n",ty); break; case 4: p.run("j=Joint("+T+",offset=of)"); j=Joint(ty,1,of); break; case 5: p.run("j=Joint('n')"); j=Joint("n"); break; case 6: p.run("j=Joint()"); break; case 7: vx::check("a joint of this type has no free axis",p.error("Joint('n',o,u,"+T+")")!=""&&p.error("Joint(o,u,"+T+")")!=""); END; return; }
    P("j",j); P("j.pose(q)",j.pose(q)); P("j.pose(q=q)",j.pose(q)); P("j.twist(q)",j.twist(q)); P("j.twist(q_dot=q)",j.twist(q)); P("j.JointAxis()",j.JointAxis()); P("j.JointOrigin()",j.JointOrigin()); P("j.getName()",j.getName()); P("j.getType()",j.getType()); P("j.getTypeName()",j.getTypeName()); P("j.getType()=="+T,true); P("Joint(j)",j); shown(p,"j",j); }
  else if(k>=7){ Joint j; switch(f){ case 0: p.run("j=Joint('n',o,u,"+T+",sc,of,i,d,st)"); j=Joint("n",o,u,ty,sc,of,in,da,st); break; case 1: p.run("j=Joint(o,u,"+T+",sc,of,i,d,st)"); j=Joint(o,u,ty,sc,of,in,da,st); break; case 2: p.run("j=Joint(stiffness=st,damping=d,inertia=i,offset=of,scale=sc,type="+T+",axis=u,origin=o,name='n')"); j=Joint("n",o,u,ty,sc,of,in,da,st); break; case 3: p.run("j=Joint('n',o,u,"+T+")"); j=Joint("n",o,u,ty); break; case 4: vx::check("this type needs an axis",p.error("Joint('n',"+T+")")!=""&&p.error("Joint("+T+")")!=""); END; return; }
    P("j",j); P("j.pose(q)",j.pose(q)); P("j.twist(q)",j.twist(q)); P("j.JointAxis()",j.JointAxis()); P("j.JointOrigin()",j.JointOrigin()); P("j.getType()=="+T,true); P("Joint(j)",j); }
  END; }
VX_CASE(rotational_inertia){ VARS; RotationalInertia I=srin("I"),J=srin("J"); p.set("I",I); p.set("J",J); P("s*I",s*I); P("I+J",I+J); P("I*a",I*a); P("RotationalInertia()",RotationalInertia::Zero()); P("RotationalInertia.Zero()",RotationalInertia::Zero()); P("RotationalInertia(1,2,3,s,5,6)",RotationalInertia(1,2,3,s,5,6)); P("RotationalInertia(Iyz=6,Ixz=5,Ixy=s,Izz=3,Iyy=2,Ixx=1)",RotationalInertia(1,2,3,s,5,6)); for(int i=-2;i<=10;i++){ string n=std::to_string(i); if(i<0||i>8){ THROWS("I["+n+"]","IndexError"); THROWS("J["+n+"]=1","IndexError"); P("J",J); } else { P("I["+n+"]",I.data[i]); p.run("J["+n+"]=s"); J.data[i]=s; P("J",J); } } END; }
VX_CASE(rigid_body_inertia){ VARS; double m=vx::real_s("m",1,2); vx::assume_lt(0.1,m); RotationalInertia A=srin("A"); p.set("m",m); p.set("A",A); RigidBodyInertia I(m,a,A),J=srbi("J"); p.set("I",I); p.set("J",J); P("RigidBodyInertia(m,a,A)",I); P("RigidBodyInertia(Ic=A,oc=a,m=m)",I); P("RigidBodyInertia(m,a)",RigidBodyInertia(m,a)); P("RigidBodyInertia(m)",RigidBodyInertia(m)); P("RigidBodyInertia()",RigidBodyInertia::Zero()); P("RigidBodyInertia.Zero()",RigidBodyInertia::Zero()); P("s*I",s*I); P("I+J",I+J); Twist T=stwist("T"); Frame F(skrot("F"),b); p.set("T",T); p.set("F",F); P("I*T",I*T); P("F*I",F*I); P("F.M*I",F.M*I); P("I.RefPoint(b)",I.RefPoint(b)); P("I.RefPoint(p=b)",I.RefPoint(b)); P("I.getMass()",I.getMass()); P("I.getCOG()",I.getCOG()); P("I.getRotationalInertia()",I.getRotationalInertia()); END; }
VX_CASE(segment){ VARS; double q=vx::real("q"),qd=vx::real("qd"); p.set("q",q); p.set("qd",qd); Joint j("jj",Joint::RotZ,s,t); Frame F=sframe_free("F"); RigidBodyInertia I=srbi("I"),I2=srbi("I2"); p.set("j",j); p.set("F",F); p.set("I",I); p.set("I2",I2); P("Segment('n',j,F,I)",Segment("n",j,F,I)); P("Segment(j,F,I)",Segment(j,F,I)); P("Segment(I=I,f_tip=F,joint=j,name='n')",Segment("n",j,F,I)); P("Segment('n',j,F)",Segment("n",j,F)); P("Segment(j,I=I)",Segment(j,Frame::Identity(),I)); P("Segment('n')",Segment("n")); P("Segment('n',f_tip=F)",Segment("n",Joint(),F)); P("Segment()",Segment());
  Segment S("n",j,F,I); p.run("S=Segment('n',j,F,I)\nC=Segment(S)"); P("S.getFrameToTip()",S.getFrameToTip()); P("S.pose(q)",S.pose(q)); P("S.twist(q,qd)",S.twist(q,qd)); P("S.twist(q_dot=qd,q=q)",S.twist(q,qd)); P("S.getName()",S.getName()); P("S.getJoint()",S.getJoint()); P("S.getInertia()",S.getInertia()); p.run("S.setInertia(I2)"); S.setInertia(I2); P("S",S); P("C",Segment("n",j,F,I)); p.run("f=S.getFrameToTip()\nf.p=Vector(9,9,9)"); P("S",S); END; }
static Segment seg(const string&n,Joint::JointType t,bool full=false){ return Segment(n,Joint(n+"_j",t,vx::real(n+".scale"),vx::real(n+".off")),Frame(full?skrot(n+".R"):Rotation::Identity(),svec(n+".tip")),full?srbi(n+".I"):RigidBodyInertia::Zero()); }
VX_CASE(chain){ Py p; Segment A=seg("A",Joint::RotX,true),B=seg("B",Joint::Fixed),D=seg("D",Joint::TransY); p.set("A",A); p.set("B",B); p.set("D",D); p.run("c=Chain()\nc.addSegment(A)\nc.addSegment(segment=B)\nA.setInertia(RigidBodyInertia(5))"); Chain c; c.addSegment(A); c.addSegment(B); P("c",c); P("c.getNrOfJoints()",c.getNrOfJoints()); P("c.getNrOfSegments()",c.getNrOfSegments()); P("c.getSegment(0)",A); P("c.getSegment(index=1)",B); p.run("k=Chain(c)\nk.addSegment(D)"); P("c",c); Chain k=c; k.addSegment(D); P("k",k); p.run("c.addChain(k)"); c.addChain(k); P("c",c); p.run("k.addChain(chain=k)"); k.addChain(Chain(k)); P("k",k); shown(p,"c",c); p.run("x=c.getSegment(0)\ndel c\nx.getName()"); P("x",A); END; }
VX_CASE(tree){ Py p; Segment A=seg("A",Joint::RotX),B=seg("B",Joint::Fixed),D=seg("D",Joint::TransY); for(auto&x:{std::make_pair("A",A),std::make_pair("B",B),std::make_pair("D",D)}) p.set(x.first,x.second); Chain k; k.addSegment(B); k.addSegment(D); p.set("k",k); p.run("t=Tree('base')"); Tree t("base"); P("t.addSegment(A,'base')",true); t.addSegment(A,"base"); P("t.addSegment(hook_name='base',segment=A)",false); P("t.addSegment(D,'nowhere')",false); P("t.addChain(k,'A')",true); t.addChain(k,"A"); P("t.addChain(hook_name='x',chain=k)",false); Tree u("root"); u.addSegment(Segment("E",Joint("E_j",Joint::RotZ)),"root"); p.set("u",u); P("t.addTree(u,'B')",true); t.addTree(u,"B"); P("t.addTree(hook_name='y',tree=u)",false); P("t.getNrOfJoints()",t.getNrOfJoints()); P("t.getNrOfSegments()",t.getNrOfSegments()); for(auto x:{"base","A","B","D","E"}) for(auto y:{"base","A","B","D","E"}){ Chain c; t.getChain(x,y,c); P(string("t.getChain('")+x+"','"+y+"')",c); } P("t.getChain(chain_tip='D',chain_root='base').getNrOfSegments()",3u); P("t.getChain('base','none').getNrOfSegments()",0u); shown(p,"t",t); P("Tree().getNrOfSegments()",0u); p.run("r=Tree(root_name='zz')"); P("r.addSegment(A,'zz')",true); END; }
VX_CASE(jnt_array){ VARS; vx::assume_ne(s,0); int n=vx::choose("size",4); JntArray q=sja("q",n),r=sja("r",n),o(n),w(n); p.set("q",q); p.set("r",r); p.set("w",w); p.set("n",n); P("JntArray(n)",JntArray(n)); P("JntArray(size=n)",JntArray(n)); P("JntArray()",JntArray()); P("JntArray(q)",q); P("q.rows()",q.rows()); P("q.columns()",q.columns()); for(int i=-2;i<=n+2;i++){ string m=std::to_string(i); if(i<0||i>=n){ THROWS("q["+m+"]","IndexError"); THROWS("w["+m+"]=1","IndexError"); } else { P("q["+m+"]",q(i)); p.run("w["+m+"]=s"); w(i)=s; } P("w",w); }
  p.run("Add(q,r,w)"); Add(q,r,o); P("w",o); p.run("Subtract(q,r,w)"); Subtract(q,r,o); P("w",o); p.run("Multiply(q,s,w)"); Multiply(q,s,o); P("w",o); p.run("Divide(q,s,w)"); Divide(q,s,o); P("w",o); p.run("Add(dest=w,src2=r,src1=q)"); Add(q,r,o); P("w",o); p.run("Subtract(dest=w,src2=r,src1=q)"); Subtract(q,r,o); P("w",o); p.run("c=JntArray(q)\nSetToZero(c)"); SetToZero(o); P("c",o); P("q",q); if(n){ Jacobian J=sjac("J",n); p.set("J",J); Twist T; MultiplyJacobian(J,q,T); p.run("T=Twist()\nMultiplyJacobian(J,q,T)"); P("T",T); shown(p,"q",q); } p.run("c=JntArray(q)\nc.resize(n+2)"); P("c.rows()",(unsigned)n+2); p.run("c=JntArray(q)\nc.resize(size=0)"); P("c.rows()",0u); END; }
VX_CASE(jnt_array_equal){ Py p; JntArray q=sja("q",2),r=q; r(vx::choose("differs at",2))+=vx::real("s"); p.set("q",q); p.set("r",r); JntArrayVel x(q,r),y(q,q); p.set("x",x); p.set("y",y); switch(vx::choose("op",5)){ case 0: P("q==r",q==r); break; case 1: P("Equal(q,r)",Equal(q,r)); break; case 2: P("Equal(q,r,0.25)",Equal(q,r,0.25)); break; case 3: P("Equal(x,y)",Equal(x,y)); break; case 4: P("Equal(x,y,eps=0.25)",Equal(x,y,0.25)); } END; }
VX_CASE(jnt_array_vel){ VARS; vx::assume_ne(s,0); int n=vx::choose("size",3); JntArray q=sja("q",n),qd=sja("qd",n); JntArrayVel x(q,qd),y(sja("r",n),sja("rd",n)),o(n); doubleVel d(vx::real("d"),vx::real("dd")); vx::assume_ne(d.t,0); p.set("q",q); p.set("qd",qd); p.set("x",x); p.set("y",y); p.set("d",d); p.set("n",n); P("JntArrayVel(n)",JntArrayVel(n)); P("JntArrayVel(q,qd)",x); P("JntArrayVel(q_dot=q,q=qd)",JntArrayVel(qd,q)); P("JntArrayVel(q)",JntArrayVel(q)); P("x.q",q); P("x.qdot",qd); P("x.value()",x.value()); P("x.deriv()",x.deriv()); p.run("w=JntArrayVel(n)");
  p.run("Add(x,y,w)"); Add(x,y,o); P("w",o); p.run("Subtract(x,y,w)"); Subtract(x,y,o); P("w",o); p.run("Add(x,q,w)"); Add(x,q,o); P("w",o); p.run("Subtract(x,q,w)"); Subtract(x,q,o); P("w",o); p.run("Multiply(x,s,w)"); Multiply(x,s,o); P("w",o); p.run("Multiply(x,d,w)"); Multiply(x,d,o); P("w",o); p.run("Divide(x,s,w)"); Divide(x,s,o); P("w",o); p.run("Divide(x,d,w)"); Divide(x,d,o); P("w",o); p.run("SetToZero(w)"); SetToZero(o); P("w",o); P("x",x); p.run("w.q=q\nw.qdot=q"); P("w",JntArrayVel(q,q)); if(n){ p.run("w.q[0]=s"); JntArray q2=q; q2(0)=s; P("w",JntArrayVel(q2,q)); P("q",q); } p.run("w.resize(5)"); P("w.q.rows()+w.qdot.rows()",10u); p.run("g=JntArrayVel(q,qd).q"); P("g",q); END; }
VX_CASE(jacobian){ VARS; int n=1+vx::choose("columns",2); Jacobian J=sjac("J",n),K(n),o(n); p.set("J",J); p.set("K",K); p.set("n",n); Rotation R=skmat("R"); Frame F=sframe_free("F"); Twist T=stwist("T"); p.set("R",R); p.set("F",F); p.set("T",T); P("Jacobian(n)",Jacobian(n)); P("Jacobian(nr_columns=n)",Jacobian(n)); P("Jacobian().columns()",0u); P("Jacobian(J)",J); P("J.rows()",6u); P("J.columns()",(unsigned)n); for(int i=-2;i<=7;i++) for(int j=-2;j<=n+1;j++){ string m="["+std::to_string(i)+","+std::to_string(j)+"]"; if(i<0||i>5||j<0||j>=n){ THROWS("J"+m,"IndexError"); THROWS("K"+m+"=1","IndexError"); } else { P("J"+m,J(i,j)); p.run("K"+m+"=s"); K(i,j)=s; } } P("K",K); P("J.getColumn(n-1)",J.getColumn(n-1)); P("J.getColumn(index=0)",J.getColumn(0)); p.run("K.setColumn(n-1,T)"); K.setColumn(n-1,T); P("K",K); p.run("K.setColumn(t=T,index=0)"); K.setColumn(0,T); P("K",K);
  p.run("K=Jacobian(J)\nK.changeRefPoint(a)"); K=J; K.changeRefPoint(a); P("K",K); p.run("K=Jacobian(J)\nK.changeBase(R)"); K=J; K.changeBase(R); P("K",K); p.run("K=Jacobian(J)\nK.changeRefFrame(frame=F)"); K=J; K.changeRefFrame(F); P("K",K); P("J",J); P("changeRefPoint(J,a,K)",changeRefPoint(J,a,o)); P("K",o); P("changeBase(J,R,K)",changeBase(J,R,o)); P("K",o); P("changeRefFrame(J,F,K)",changeRefFrame(J,F,o)); P("K",o); P("changeRefFrame(dest=K,frame=F,src=J)",true); p.run("M=Jacobian(n+1)"); P("changeBase(J,R,M)",false); p.run("SetToZero(K)"); SetToZero(o); P("K",o); shown(p,"J",J); p.run("K.resize(n+1)"); P("K.columns()",(unsigned)n+1); P("J",J); END; }
VX_CASE(jnt_space_inertia){ VARS; vx::assume_ne(s,0); int n=1+vx::choose("size",3); JntSpaceInertiaMatrix A=sjsim("A",n),B=sjsim("B",n),o(n),W(n); JntArray q=sja("q",n),r(n); p.set("A",A); p.set("B",B); p.set("W",W); p.set("q",q); p.set("n",n); P("JntSpaceInertiaMatrix(n)",JntSpaceInertiaMatrix(n)); P("JntSpaceInertiaMatrix().rows()",0u); P("JntSpaceInertiaMatrix(A)",A); P("A.rows()",A.rows()); P("A.columns()",A.columns()); for(int i=-2;i<=n+1;i++) for(int j=-2;j<=n+1;j++){ string m="["+std::to_string(i)+","+std::to_string(j)+"]"; if(i<0||i>=n||j<0||j>=n){ THROWS("A"+m,"IndexError"); THROWS("W"+m+"=1","IndexError"); } else { P("A"+m,A(i,j)); p.run("W"+m+"=s"); W(i,j)=s; } } P("W",W);
  p.run("Add(A,B,W)"); Add(A,B,o); P("W",o); p.run("Subtract(A,B,W)"); Subtract(A,B,o); P("W",o); p.run("Multiply(A,s,W)"); Multiply(A,s,o); P("W",o); p.run("Divide(A,s,W)"); Divide(A,s,o); P("W",o); p.run("r=JntArray(n)\nMultiply(A,q,r)"); Multiply(A,q,r); P("r",r); p.run("SetToZero(W)"); SetToZero(o); P("W",o); P("A",A); shown(p,"A",A); p.run("C=JntSpaceInertiaMatrix(A)\nC[0,0]=9"); P("A",A); p.run("C.resize(n+1)"); P("C.rows()+C.columns()",2u*n+2); END; }
VX_CASE(jnt_space_inertia_equal){ Py p; JntSpaceInertiaMatrix A=sjsim("A",2),B=A; B(vx::choose("row",2),vx::choose("column",2))+=vx::real("s"); p.set("A",A); p.set("B",B); switch(vx::choose("op",3)){ case 0: P("A==B",A==B); break; case 1: P("Equal(A,B)",Equal(A,B)); break; case 2: P("Equal(A,B,0.25)",Equal(A,B,0.25)); } END; }
// solvers -------------------------------------------------------------------------------------------------------------
static Chain robot(bool full=false){ Chain c; c.addSegment(seg("A",Joint::RotZ,full)); c.addSegment(seg("B",vx::flip("second joint slides")?Joint::TransX:Joint::RotX,full)); c.addSegment(seg("E",Joint::Fixed)); return c; }
static Chain slides(int n=2){ Chain c; for(int i=0;i<n;i++) c.addSegment(Segment(idx("s",i),Joint(idx("j",i),i==0?Joint::TransX:i==1?Joint::TransY:Joint::TransZ),Frame(Vector(i,1,2)))); return c; }
VX_CASE(fk){ Py p; Chain c=robot(); JntArray q=sja("q",2),qd=sja("qd",2); JntArrayVel x(q,qd); p.set("c",c); p.set("q",q); p.set("x",x); p.run("F=Frame()\nV=FrameVel()\nf=ChainFkSolverPos_recursive(c)\ng=ChainFkSolverVel_recursive(chain=c)"); ChainFkSolverPos_recursive f(c); ChainFkSolverVel_recursive g(c); for(int s=-2;s<=4;s++){ string n=std::to_string(s); Frame F; FrameVel V; P("f.JntToCart(q,F,"+n+")",f.JntToCart(q,F,s)); P("F",F); P("f.getError()",f.getError()); P("g.JntToCart(x,V,"+n+")",g.JntToCart(x,V,s)); P("V",V); p.run("F=Frame()\nV=FrameVel()"); } Frame F; FrameVel V; P("f.JntToCart(p_out=F,q_in=q)",f.JntToCart(q,F)); P("F",F); P("g.JntToCart(x,V)",g.JntToCart(x,V)); P("V",V); P("f.JntToCart(JntArray(1),F)",(int)SolverI::E_SIZE_MISMATCH); for(int e:{0,1,-1,-3,-4,-5}) P("f.strError("+std::to_string(e)+")",string(f.strError(e))); p.run("c.addSegment(Segment('z',Joint('zj',Joint.TransZ)))"); P("f.JntToCart(q,F)",(int)SolverI::E_SIZE_MISMATCH); p.run("f.updateInternalDataStructures()"); P("f.JntToCart(JntArray(3),F)",0); END; }
VX_CASE(jacobians){ Py p; Chain c=robot(); JntArray q=sja("q",2); JntArrayVel x(q,sja("qd",2)); p.set("c",c); p.set("q",q); p.set("x",x); ChainJntToJacSolver s(c); ChainJntToJacDotSolver d(c); p.run("J=Jacobian(2)\ns=ChainJntToJacSolver(c)\nd=ChainJntToJacDotSolver(chain=c)\nT=Twist()"); Jacobian J(2); Twist T; switch(vx::choose("op",6)){ case 0: for(int k=-2;k<=4;k++){ SetToZero(J); p.run("SetToZero(J)"); P("s.JntToJac(q,J,"+std::to_string(k)+")",s.JntToJac(q,J,k)); P("J",J); } P("s.JntToJac(jac=J,q_in=q)",s.JntToJac(q,J)); P("J",J); P("s.JntToJac(q,Jacobian(1))",(int)SolverI::E_SIZE_MISMATCH); break; case 1: P("s.setLockedJoints([True,False])",s.setLockedJoints({true,false})); P("s.setLockedJoints(locked_joints=[True])",s.setLockedJoints({true})); P("s.JntToJac(q,J)",s.JntToJac(q,J)); P("J",J); P("d.setLockedJoints([False,True])",d.setLockedJoints({false,true})); P("d.JntToJacDot(x,J)",d.JntToJacDot(x,J)); P("J",J); break;
    case 2: case 3: case 4:{ int k=vx::choose("representation",4); if(k==0){ p.run("d.setHybridRepresentation()"); d.setHybridRepresentation(); } if(k==1){ p.run("d.setBodyFixedRepresentation()"); d.setBodyFixedRepresentation(); } if(k==2){ p.run("d.setInertialRepresentation()"); d.setInertialRepresentation(); } if(k==3){ int r=vx::choose("r",3); const char*N[]={"HYBRID","BODYFIXED","INERTIAL"}; const int RR[]={ChainJntToJacDotSolver::HYBRID,ChainJntToJacDotSolver::BODYFIXED,ChainJntToJacDotSolver::INERTIAL}; p.run(string("d.setRepresentation(ChainJntToJacDotSolver.")+N[r]+")"); d.setRepresentation(RR[r]); } P("d.JntToJacDot(x,J)",d.JntToJacDot(x,J)); P("J",J); P("d.JntToJacDot(x,T,2)",d.JntToJacDot(x,T,2)); P("T",T); break; } case 5: P("ChainJntToJacDotSolver.E_JAC_DOT_FAILED",(int)ChainJntToJacDotSolver::E_JAC_DOT_FAILED); P("ChainJntToJacDotSolver.E_JACSOLVER_FAILED",(int)ChainJntToJacDotSolver::E_JACSOLVER_FAILED); P("ChainJntToJacDotSolver.E_FKSOLVERPOS_FAILED",(int)ChainJntToJacDotSolver::E_FKSOLVERPOS_FAILED); P("d.JntToJacDot(x,J,7)",d.JntToJacDot(x,J,7)); P("d.JntToJacDot(jac_dot_q_dot=T,q_in=x,seg_nr=1)",d.JntToJacDot(x,T,1)); P("T",T); P("d.JntToJacDot(jdot=J,q_in=x,seg_nr=1)",d.JntToJacDot(x,J,1)); P("J",J); P("d.getError()",0); } END; }
VX_CASE(dynamics){ Py p; Chain c; Segment A("A",Joint("A_j",Joint::RotZ,1,0,vx::real("rotor")),Frame(svec("tA")),srbi("IA")),B("B",Joint("B_j",Joint::TransX),Frame(svec("tB")),srbi("IB")); c.addSegment(A); c.addSegment(B); JntArray q=sja("q",2),qd=sja("qd",2),qdd=sja("qdd",2),o(2); Vector g=svec("g"); p.set("c",c); p.set("q",q); p.set("qd",qd); p.set("qdd",qdd); p.set("g",g); Wrenches f={swrench("f0"),swrench("f1")}; p.set("f0",f[0]); p.set("f1",f[1]); p.run("o=JntArray(2)");
  switch(vx::choose("op",4)){ case 0:{ ChainIdSolver_RNE s(c,g); p.run("s=ChainIdSolver_RNE(c,g)"); P("s.CartToJnt(q,qd,qdd,[f0,f1],o)",s.CartToJnt(q,qd,qdd,f,o)); P("o",o); P("s.CartToJnt(q,qd,qdd,[f0],o)",(int)SolverI::E_SIZE_MISMATCH); P("s.CartToJnt(torques=o,f_ext=[f1,f0],q_dot_dot=q,q_dot=qd,q=qdd)",s.CartToJnt(qdd,qd,q,{f[1],f[0]},o)); P("o",o); p.run("r=ChainIdSolver_RNE(grav=g,chain=c)"); P("r.CartToJnt(q,qd,qdd,[f0,f1],o)",0); break; } case 1:{ ChainDynParam d(c,g); p.run("d=ChainDynParam(c,g)\nH=JntSpaceInertiaMatrix(2)"); JntSpaceInertiaMatrix H(2); P("d.JntToMass(q,H)",d.JntToMass(q,H)); P("H",H); P("d.JntToMass(H=H,q=JntArray(1))",(int)SolverI::E_SIZE_MISMATCH); break; } case 2:{ ChainDynParam d(c,g); p.run("d=ChainDynParam(c,g)"); P("d.JntToCoriolis(q,qd,o)",d.JntToCoriolis(q,qd,o)); P("o",o); P("d.JntToCoriolis(coriolis=o,q_dot=q,q=qd)",d.JntToCoriolis(qd,q,o)); P("o",o); break; } case 3:{ ChainDynParam d(c,g); p.run("d=ChainDynParam(c,g)"); P("d.JntToGravity(q,o)",d.JntToGravity(q,o)); P("o",o); P("d.JntToGravity(gravity=o,q=qd)",d.JntToGravity(qd,o)); P("o",o); } } END; }
VX_CASE(ik_pos){ Py p; Chain c=slides(); p.set("c",c); double k=vx::real("k"); JntArray q=sja("q",2),o(2),lo=sja("lo",2),hi=sja("hi",2); Frame F(svec("F")); p.set("k",k); p.set("q",q); p.set("F",F); p.set("lo",lo); p.set("hi",hi); p.run("o=JntArray(2)\nf=ChainFkSolverPos_recursive(c)"); ChainFkSolverPos_recursive f(c); int code=vx::choose("code",2)?-100:0,w=vx::choose("solver",4); MVel v(k,code); p.run("v=MVel(k,"+std::to_string(code)+")"); ASKED=0; int cpp,pyn; if(w<2){ ChainIkSolverPos_NR s(c,f,v,w?1:2,0.125); int e=s.CartToJnt(q,F,o); cpp=ASKED; ASKED=0; p.run(w?"s=ChainIkSolverPos_NR(c,f,v,1,0.125)":"s=ChainIkSolverPos_NR(eps=0.125,maxiter=2,iksolver=v,fksolver=f,chain=c)"); P(w?"s.CartToJnt(q,F,o)":"s.CartToJnt(q_out=o,p_in=F,q_init=q)",e); } else { vx::assume_lt(lo(0),hi(0)); vx::assume_lt(lo(1),hi(1)); ChainIkSolverPos_NR_JL s(c,lo,hi,f,v,1,0.125); int e=s.CartToJnt(q,F,o); cpp=ASKED; ASKED=0; p.run(w==2?"s=ChainIkSolverPos_NR_JL(c,lo,hi,f,v,1,0.125)":"s=ChainIkSolverPos_NR_JL(eps=0.125,maxiter=1,iksolver=v,fksolver=f,q_max=hi,q_min=lo,chain=c)"); P("s.CartToJnt(q,F,o)",e); } pyn=ASKED; P("o",o); vx::check("same iterations",cpp==pyn); END; }
VX_CASE(ik_settings){ Py p; Chain c=slides(); p.set("c",c); double x=vx::real("x"),y=vx::real("y"); p.set("x",x); p.set("y",y); JntArray w=sja("w",2); p.set("w",w); p.run("a=ChainIkSolverVel_pinv(c,x,7)\nb=ChainIkSolverVel_wdls(chain=c,maxiter=7,eps=x)\nd=ChainIkSolverVel_pinv_nso(c,x,7,y)\ne=ChainIkSolverVel_pinv_givens(c)\nl=ChainIkSolverPos_LMA(c,eps=x,maxiter=7,eps_joints=y)\no=JntArray(2)"); P("b.getEps()",x); P("b.getLambda()",0.0); p.run("b.setLambda(y)"); P("b.getLambda()",y); p.run("b.setEps(eps=y)\nb.setMaxIter(max_iter=3)"); P("b.getEps()",y); P("b.getSVDResult()",0); P("d.getAlpha()",y); p.run("d.setAlpha(x)"); P("d.getAlpha()",x); P("d.setWeights(w)",0); P("d.getWeights()",w); P("d.setOptPos(opt_pos=w)",0); P("d.getOptPos()",w); P("d.setWeights(JntArray(1))",(int)SolverI::E_SIZE_MISMATCH); P("d.setOptPos(JntArray(3))",(int)SolverI::E_SIZE_MISMATCH); P("d.getWeights()",w); for(string s:{"a","b","d","e"}){ P(s+".CartToJnt(JntArray(1),Twist(),o)",(int)SolverI::E_SIZE_MISMATCH); P(s+".CartToJnt(JntArray(2),Twist(),JntArray(3))",(int)SolverI::E_SIZE_MISMATCH); P("isinstance("+s+",ChainIkSolverVel) and isinstance("+s+",SolverI)",true); } P("l.CartToJnt(JntArray(1),Frame(),o)",(int)SolverI::E_SIZE_MISMATCH); P("ChainIkSolverPos_LMA(c,eps_joints=x,maxiter=3,eps=y).CartToJnt(JntArray(2),Frame(),JntArray(1))",(int)SolverI::E_SIZE_MISMATCH); END; }
// what a solver was built on stays alive as long as the solver does
VX_CASE(lifetimes){ Py p; Segment A=seg("A",Joint::TransX),B=seg("B",Joint::TransY); Chain c; c.addSegment(A); c.addSegment(B); JntArray q=sja("q",2); p.set("A",A); p.set("B",B); p.set("q",q); p.run("import gc\ndef mk():\n c=Chain()\n c.addSegment(A)\n c.addSegment(B)\n return c\ndef junk():\n gc.collect()\n return [Chain(mk()) for i in range(4)]"); int e=0;
  switch(vx::choose("solver",14)){ case 0:{ p.run("s=ChainFkSolverPos_recursive(mk())\nj=junk()\nF=Frame()\ne=s.JntToCart(q,F)"); Frame F; ChainFkSolverPos_recursive(c).JntToCart(q,F); P("F",F); break; } case 1:{ p.run("s=ChainFkSolverVel_recursive(mk())\nj=junk()\nF=FrameVel()\ne=s.JntToCart(JntArrayVel(q),F)"); FrameVel F; ChainFkSolverVel_recursive(c).JntToCart(JntArrayVel(q),F); P("F",F); break; } case 2:{ p.run("s=ChainJntToJacSolver(mk())\nj=junk()\nJ=Jacobian(2)\ne=s.JntToJac(q,J)"); Jacobian J(2); ChainJntToJacSolver(c).JntToJac(q,J); P("J",J); break; } case 3:{ p.run("s=ChainJntToJacDotSolver(mk())\nj=junk()\nJ=Jacobian(2)\ne=s.JntToJacDot(JntArrayVel(q),J)"); break; } case 4:{ p.run("s=ChainIdSolver_RNE(mk(),Vector(1,2,3))\nj=junk()\no=JntArray(2)\ne=s.CartToJnt(q,q,q,[Wrench(),Wrench()],o)"); break; } case 5: p.run("s=ChainDynParam(mk(),Vector(1,2,3))\nj=junk()\no=JntArray(2)\ne=s.JntToGravity(q,o)"); break;
    case 6: case 7:{ p.run(vx::flip("limits")?"def b():\n c=mk()\n return ChainIkSolverPos_NR_JL(c,JntArray(2),JntArray(2),ChainFkSolverPos_recursive(c),MVel(1,0),1,0.5)\ns=b()\nj=junk()\no=JntArray(2)\nr=s.CartToJnt(q,Frame(Vector(1,2,3)),o)":"def b():\n c=mk()\n return ChainIkSolverPos_NR(c,ChainFkSolverPos_recursive(c),MVel(1,0),1,0.5)\ns=b()\nj=junk()\no=JntArray(2)\nr=s.CartToJnt(q,Frame(Vector(1,2,3)),o)"); p.run("e=0"); break; } 
    case 8: case 9: case 10: case 11: case 12:{ const char*N[]={"ChainIkSolverVel_pinv","ChainIkSolverVel_wdls","ChainIkSolverVel_pinv_nso","ChainIkSolverVel_pinv_givens","ChainIkSolverPos_LMA"}; int k=vx::choose("ik",5); p.run(string("s=")+N[k]+"(mk()"+(k==4?",eps=0.5":"")+")\nj=junk()\ns.updateInternalDataStructures()\no=JntArray(3)\ne=s.CartToJnt(q,"+(k==4?"Frame()":"Twist()")+",o)"); e=SolverI::E_SIZE_MISMATCH; break; } case 13:{ p.run("x=mk().getSegment(0)\ny=x.getJoint()\nz=x.getInertia()\nf=JntArrayVel(q,q).qdot\ndel x\nj=junk()\ne=0"); P("y",A.getJoint()); P("f",q); } } P("e",e); END; }
VX_CASE(misuse){ Py p; for(string s:{"JntArray(-1)","JntArray('a')","JntArray(2)['a']","JntArray(2)[0,0]","Jacobian(1)[0]","Jacobian(1)[0,0,0]","Joint(1,2,3,4,5,6,7,8)","Segment(1)","Chain(1)","Tree(1)","Tree().addSegment('a','b')","ChainFkSolverPos_recursive()","ChainFkSolverPos_recursive(1)","ChainFkSolverPos()","ChainIkSolverVel()","ChainIkSolverPos()","SolverI()","ChainIdSolver()","ChainIkSolverPos_NR(Chain())","ChainDynParam(Chain())","Add(JntArray(1),JntArray(1))","RotationalInertia()*2","RigidBodyInertia()*Vector()"}) vx::check(s+" raises TypeError",p.error(s)=="TypeError"); END; }
