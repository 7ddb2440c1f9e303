// SRC: frames frames_io framevel utilities/utility utilities/utility_io utilities/error_stack
// PYSRC: frames framevel
// BOUNDS: every exposed operation on Vector, Rotation, Frame, Twist, Wrench, doubleVel, VectorVel, RotationVel, FrameVel, TwistVel with symbolic operands of every overload; item indices -3..10; hashes on concrete values
#include "pyk.h"
PYBIND11_EMBEDDED_MODULE(PyKDL,m){ init_frames(m); init_framevel(m); }
#define VARS Py p; Vector a=svec("a"),b=svec("b"); double s=vx::real("s"),t=vx::real("t"); p.set("a",a); p.set("b",b); p.set("s",s); p.set("t",t)
#define END vx::reach("end")
static const char*kinds[]={"Vector","Twist","Wrench","Rotation","Frame"};
VX_CASE(vector){ VARS; vx::assume_ne(s,0); P("a+b",a+b); P("a-b",a-b); P("a*s",a*s); P("s*a",s*a); P("a*b",a*b); P("-a",-a); P("dot(a,b)",dot(a,b)); P("a.x()",a.x()); P("a.y()",a.y()); P("a.z()",a.z()); P("Vector(s,t,2)",Vector(s,t,2)); P("Vector(x=s,z=t,y=2)",Vector(s,2,t)); P("Vector()",Vector::Zero()); P("Vector.Zero()",Vector::Zero());
  for(int i=-3;i<=10;i++){ string n=std::to_string(i); if(i<0||i>2){ THROWS("a["+n+"]","IndexError"); THROWS("a["+n+"]=1","IndexError"); eq("a unchanged",p.get<Vector>("a"),a); } else { P("a["+n+"]",a.data[i]); p.run("c=Vector(a)\nc["+n+"]=s"); Vector c=a; c.data[i]=s; P("c",c); } }
  p.run("c=Vector(a)\nc+=b"); P("c",a+b); p.run("c=Vector(a)\nc-=b"); P("c",a-b); p.run("c=Vector(a)\nc.x(s)"); P("c",Vector(s,a.y(),a.z())); p.run("c=Vector(a)\nc.y(s)"); P("c",Vector(a.x(),s,a.z())); p.run("c=Vector(a)\nc.z(value=s)"); P("c",Vector(a.x(),a.y(),s)); p.run("c=Vector(a)\nc.ReverseSign()"); P("c",-a); p.run("c=Vector(a)\nSetToZero(c)"); P("c",Vector::Zero()); P("diff(a,b)",b-a); P("diff(a,b,s)",(b-a)/s); P("addDelta(a,b)",a+b); P("addDelta(a,b,s)",a+b*s); shown(p,"a",a); copies(p,"a",a,"@[1]=123\n@.x(7)"); pickles(p,"a",a); P("a",a); P("b",b); END; }
VX_CASE(vector_div){ VARS; vx::assume_ne(s,0); P("a/s",a/s); END; }
VX_CASE(vector_norm){ VARS; P("a.Norm()",a.Norm()); p.run("c=Vector(a)\nn=c.Normalize()"); Vector c=a; double n=c.Normalize(); P("n",n); P("c",c); P("a.Norm(0.5)",a.Norm(0.5)); p.run("c=Vector(a)\nn=c.Normalize(eps=0.5)"); c=a; n=c.Normalize(0.5); P("n",n); P("c",c); END; }
VX_CASE(vector_equal){ VARS; if(vx::flip("same")){ b=a; b.data[vx::choose("differs at",3)]+=s; p.set("b",b); } switch(vx::choose("op",4)){ case 0: P("a==b",a==b); break; case 1: P("a!=b",a!=b); break; case 2: P("Equal(a,b)",Equal(a,b)); break; case 3: P("Equal(a,b,0.25)",Equal(a,b,0.25)); } END; }
static void hashes(Py&p){ Vector v(1,2,3),w(4,5,6); Rotation R(1,2,3,4,5,6,7,8,9); p.set("v",v); p.set("R",R); p.set("f",Frame(R,v)); p.set("T",Twist(v,w)); p.set("W",Wrench(v,w)); p.set("x",doubleVel(1,2)); p.set("vv",VectorVel(v,w)); p.set("rv",RotationVel(R,w)); p.set("fv",FrameVel(Frame(R,v),Twist(v,w))); p.set("tv",TwistVel(Twist(v,w),Twist(w,v))); for(string n:{"v","R","f","T","W","x","vv","rv","fv","tv"}){ eq("hash of an equal value",p.get<bool>("hash("+n+")==hash(copy.copy("+n+"))"),true); } auto h=[&](const char*n,size_t x){ p.g["h"]=py::cast(x); eq(string("hash of ")+n,p.get<bool>(string(n)+".__hash__()==h"),true); }; h("v",std::hash<Vector>()(v)); h("R",std::hash<Rotation>()(R)); h("T",std::hash<Twist>()(Twist(v,w))); h("W",std::hash<Wrench>()(Wrench(v,w))); eq("set of equal vectors",p.get<int>("len({v,Vector(v),Vector(0,0,1)})"),2); }
VX_CASE(hash){ Py p; hashes(p); END; }
// six-vectors -------------------------------------------------------------------------------------------------------------
template<class T> static void six(const char*T_,const T&a,const T&b,const char*f1,const char*f2,Vector T::*m1,Vector T::*m2){ Py p; string K=T_; double s=vx::real("s"),t=vx::real("t"); Vector v=svec("v"); p.set("a",a); p.set("b",b); p.set("s",s); p.set("t",t); p.set("v",v); vx::assume_ne(s,0);
  P("a+b",a+b); P("a-b",a-b); P("a*s",a*s); P("s*a",s*a); P("-a",-a); P("a.RefPoint(v)",a.RefPoint(v)); P("a.RefPoint(base=v)",a.RefPoint(v)); P(K+"()",T()); P(K+".Zero()",T::Zero()); P(string("a.")+f1,a.*m1); P(string("a.")+f2,a.*m2);
  P(K+"(v,a."+f2+")",T(v,a.*m2)); P(K+"("+f2+"=v,"+f1+"=a."+f2+")",T(a.*m2,v));
  for(int i=-3;i<=10;i++){ string n=std::to_string(i); if(i<0||i>5){ THROWS("a["+n+"]","IndexError"); THROWS("a["+n+"]=1","IndexError"); eq("a unchanged",p.get<T>("a"),a); } else { double x=i<3?(a.*m1).data[i]:(a.*m2).data[i-3]; P("a["+n+"]",x); p.run("c="+K+"(a)\nc["+n+"]=s"); T c=a; (i<3?(c.*m1).data[i]:(c.*m2).data[i-3])=s; P("c",c); } }
  p.run("c="+K+"(a)\nc+=b"); P("c",a+b); p.run("c="+K+"(a)\nc-=b"); P("c",a-b); p.run("c="+K+"(a)\nc.ReverseSign()"); P("c",-a); p.run("c="+K+"(a)\nSetToZero(c)"); P("c",T::Zero()); T c; p.run("c="+K+"(a)\nc."+f1+"=v"); c=a; c.*m1=v; P("c",c); p.run("c="+K+"(a)\nc."+f2+"=v\nv[0]=77"); c=a; c.*m2=v; P("c",c); p.set("v",v); p.run(string("c=")+K+"(a)\nc."+f2+"[1]=s"); c=a; (c.*m2).data[1]=s; P("c",c); p.run(string("w=")+K+"(a)."+f2); P("w",a.*m2);
  P("diff(a,b)",diff(a,b)); P("diff(a,b,s)",diff(a,b,s)); P("addDelta(a,b)",addDelta(a,b)); P("addDelta(a,b,s)",addDelta(a,b,s)); shown(p,"a",a); copies(p,"a",a,(string("@[4]=123\n@.")+f1+"=Vector(1,2,3)").c_str()); pickles(p,"a",a); P("a",a); P("b",b); END; }
VX_CASE(twist){ six("Twist",stwist("a"),stwist("b"),"vel","rot",&Twist::vel,&Twist::rot); }
VX_CASE(wrench){ six("Wrench",swrench("a"),swrench("b"),"force","torque",&Wrench::force,&Wrench::torque); }
VX_CASE(six_mixed){ Py p; Twist T=stwist("T"); Wrench W=swrench("W"); double s=vx::real("s"); vx::assume_ne(s,0); p.set("T",T); p.set("W",W); p.set("s",s); P("dot(T,W)",dot(T,W)); P("dot(W,T)",dot(W,T)); P("T/s",T/s); P("W/s",W/s); THROWS("T+W","TypeError"); THROWS("T*T","TypeError"); END; }
VX_CASE(six_equal){ Py p; Twist T=stwist("T"),U=T; Wrench W=swrench("W"),X=W; double s=vx::real("s"); int k=vx::choose("differs at",6); if(k<3){ U.vel.data[k]+=s; X.force.data[k]+=s; } else { U.rot.data[k-3]+=s; X.torque.data[k-3]+=s; } p.set("T",T); p.set("U",U); p.set("W",W); p.set("X",X); switch(vx::choose("op",8)){ case 0: P("T==U",T==U); break; case 1: P("T!=U",T!=U); break; case 2: P("W==X",W==X); break; case 3: P("W!=X",W!=X); break; case 4: P("Equal(T,U)",Equal(T,U)); break; case 5: P("Equal(T,U,0.25)",Equal(T,U,0.25)); break; case 6: P("Equal(W,X)",Equal(W,X)); break; case 7: P("Equal(W,X,eps=0.25)",Equal(W,X,0.25)); } END; }
// rotations ------------------------------------------------------------------------------------------------------------------
static Rotation turned(const string&n){ int k=vx::choose(n+" about",3); double x=vx::real(n); return k==0?Rotation::RotX(x):k==1?Rotation::RotY(x):Rotation::RotZ(x); }
VX_CASE(rotation){ VARS; Rotation R=skmat("R"),Q=skrot("Q"); Twist T=stwist("T"); Wrench W=swrench("W"); p.set("R",R); p.set("Q",Q); p.set("T",T); p.set("W",W); P("R*Q",R*Q); P("R*a",R*a); P("R*T",R*T); P("R*W",R*W); P("R.Inverse()",R.Inverse()); P("R.Inverse(a)",R.Inverse(a)); P("R.Inverse(T)",R.Inverse(T)); P("R.Inverse(W)",R.Inverse(W)); P("R.UnitX()",R.UnitX()); P("R.UnitY()",R.UnitY()); P("R.UnitZ()",R.UnitZ()); P("Rotation()",Rotation::Identity()); P("Rotation.Identity()",Rotation::Identity());
  P("Rotation(1,2,3,s,4,5,6,t,7)",Rotation(1,2,3,s,4,5,6,t,7)); P("Rotation(xx=1,yx=2,zx=3,xy=s,yy=4,zy=5,xz=6,yz=t,zz=7)",Rotation(1,2,3,s,4,5,6,t,7)); P("Rotation(a,b,Vector(1,2,3))",Rotation(a,b,Vector(1,2,3))); P("Rotation(z=a,x=b,y=Vector(1,2,3))",Rotation(b,Vector(1,2,3),a));
  for(int i=-2;i<=4;i++) for(int j=-2;j<=4;j++){ string n="["+std::to_string(i)+","+std::to_string(j)+"]"; if(i<0||i>2||j<0||j>2){ THROWS("R"+n,"IndexError"); THROWS("R"+n+"=1","IndexError"); } else { P("R"+n,R.data[3*i+j]); p.run("C=Rotation(R)\nC"+n+"=s"); Rotation C=R; C.data[3*i+j]=s; P("C",C); } } P("R",R);
  Rotation C; p.run("C=Rotation(R)\nC.SetInverse()"); P("C",R.Inverse()); p.run("C=Rotation(R)\nC.UnitX(a)"); C=R; C.UnitX(a); P("C",C); p.run("C=Rotation(R)\nC.UnitY(a)"); C=R; C.UnitY(a); P("C",C); p.run("C=Rotation(R)\nC.UnitZ(vec=a)"); C=R; C.UnitZ(a); P("C",C); p.run("C=Rotation(R)\nC.DoRotX(s)"); C=R; C.DoRotX(s); P("C",C); p.run("C=Rotation(R)\nC.DoRotY(s)"); C=R; C.DoRotY(s); P("C",C); p.run("C=Rotation(R)\nC.DoRotZ(s)"); C=R; C.DoRotZ(s); P("C",C);
  P("Rotation.RotX(s)",Rotation::RotX(s)); P("Rotation.RotY(s)",Rotation::RotY(s)); P("Rotation.RotZ(s)",Rotation::RotZ(s)); double u=vx::real("u"); p.set("u",u); P("Rotation.RPY(s,t,u)",Rotation::RPY(s,t,u)); P("Rotation.RPY(yaw=u,roll=s,pitch=t)",Rotation::RPY(s,t,u)); P("Rotation.EulerZYX(s,t,u)",Rotation::EulerZYX(s,t,u)); P("Rotation.EulerZYZ(s,t,u)",Rotation::EulerZYZ(s,t,u)); P("Rotation.EulerZYZ(gamma=u,beta=t,alpha=s)",Rotation::EulerZYZ(s,t,u)); P("Rotation.Quaternion(s,t,u,0.5)",Rotation::Quaternion(s,t,u,0.5)); P("Rotation.Rot2(a,s)",Rotation::Rot2(a,s)); shown(p,"R",R); copies(p,"R",R,"@[1,2]=123\n@.DoRotX(1)"); END; }
VX_CASE(rotation_rot){ VARS; if(vx::flip("keyword")) P("Rotation.Rot(angle=s,rotvec=a)",Rotation::Rot(a,s)); else P("Rotation.Rot(a,s)",Rotation::Rot(a,s)); END; }
VX_CASE(rotation_angles){ Py p; int f=vx::choose("form",7); Rotation Q=f<4?skrot("Q"):turned("Q"); p.set("Q",Q); double x,y,z,w; switch(f){ case 0: Q.GetRPY(x,y,z); P("Q.GetRPY()[0]",x); P("Q.GetRPY()[1]",y); P("Q.GetRPY()[2]",z); break; case 1: Q.GetEulerZYX(x,y,z); P("Q.GetEulerZYX()[0]",x); P("Q.GetEulerZYX()[1]",y); P("Q.GetEulerZYX()[2]",z); break; case 2: Q.GetEulerZYZ(x,y,z); P("Q.GetEulerZYZ()[0]",x); P("Q.GetEulerZYZ()[1]",y); P("Q.GetEulerZYZ()[2]",z); break; case 3: Q.GetQuaternion(x,y,z,w); P("Q.GetQuaternion()[0]",x); P("Q.GetQuaternion()[1]",y); P("Q.GetQuaternion()[2]",z); P("Q.GetQuaternion()[3]",w); break; case 4: P("Q.GetRot()",Q.GetRot()); break; case 5:{ Vector v; x=Q.GetRotAngle(v); P("Q.GetRotAngle()[0]",x); P("Q.GetRotAngle()[1]",v); } break; case 6:{ Vector v; x=Q.GetRotAngle(v,0.1); P("Q.GetRotAngle(0.1)[0]",x); P("Q.GetRotAngle(eps=0.1)[1]",v); } } END; }
VX_CASE(rotation_equal){ Py p; Rotation R=skmat("R"),Q=R; Q.data[vx::choose("differs at",9)]+=vx::real("s"); p.set("R",R); p.set("Q",Q); switch(vx::choose("op",4)){ case 0: P("R==Q",R==Q); break; case 1: P("R!=Q",R!=Q); break; case 2: P("Equal(R,Q)",Equal(R,Q)); break; case 3: P("Equal(R,Q,0.25)",Equal(R,Q,0.25)); } END; }
VX_CASE(rotation_pickle){ Py p; double x=vx::range("Q",-3,3); Rotation Q=vx::flip("about x")?Rotation::RotX(x):Rotation::RotZ(x); p.set("Q",Q); pickles(p,"Q",Q,1e-6); END; }
VX_CASE(rotation_pickle_angles){ Py p; Rotation Q=skrot("Q"); p.set("Q",Q); double x,y,z; Q.GetRPY(x,y,z); p.run("c=pickle.loads(pickle.dumps(Q))"); P("c",Rotation::RPY(x,y,z)); END; }
VX_CASE(rotation_diff){ VARS; Rotation R=Rotation::RotZ(t); p.set("R",R); if(vx::flip("default step")) P("addDelta(R,a)",addDelta(R,a)); else { P("addDelta(R,a,0.5)",addDelta(R,a,0.5)); } END; }
VX_CASE(rotation_diff2){ Py p; double s=vx::real("s"); vx::assume_ne(s,0); Rotation R=Rotation::RotX(vx::real("x")),Q=Rotation::RotX(vx::real("o")); p.set("R",R); p.set("Q",Q); p.set("s",s); if(vx::flip("default step")) P("diff(R,Q)",diff(R,Q)); else P("diff(R,Q,dt=s)",diff(R,Q,s)); END; }
// frames -----------------------------------------------------------------------------------------------------------------------
VX_CASE(frame){ VARS; Frame F=sframe_free("F"),G=sframe("G"); Twist T=stwist("T"); Wrench W=swrench("W"); p.set("F",F); p.set("G",G); p.set("T",T); p.set("W",W); P("F*G",F*G); P("F*a",F*a); P("F*T",F*T); P("F*W",F*W); P("F.Inverse()",F.Inverse()); P("F.Inverse(a)",F.Inverse(a)); P("F.Inverse(T)",F.Inverse(T)); P("F.Inverse(W)",F.Inverse(W)); P("F.M",F.M); P("F.p",F.p); P("Frame()",Frame::Identity()); P("Frame.Identity()",Frame::Identity()); P("Frame(G.M,a)",Frame(G.M,a)); P("Frame(V=a,R=G.M)",Frame(G.M,a)); P("Frame(a)",Frame(a)); P("Frame(G.M)",Frame(G.M));
  for(int i=-2;i<=4;i++) for(int j=-2;j<=5;j++){ string n="["+std::to_string(i)+","+std::to_string(j)+"]"; if(i<0||i>2||j<0||j>3){ THROWS("F"+n,"IndexError"); THROWS("F"+n+"=1","IndexError"); } else { P("F"+n,j==3?F.p.data[i]:F.M.data[3*i+j]); p.run("C=Frame(F)\nC"+n+"=s"); Frame C=F; (j==3?C.p.data[i]:C.M.data[3*i+j])=s; P("C",C); } } P("F",F);
  double u=vx::real("u"); p.set("u",u); P("Frame.DH(s,t,u,0.5)",Frame::DH(s,t,u,0.5)); P("Frame.DH(theta=s,d=t,alpha=u,a=0.5)",Frame::DH(0.5,u,t,s)); P("Frame.DH_Craig1989(s,t,u,0.5)",Frame::DH_Craig1989(s,t,u,0.5)); P("Frame.DH_Craig1989(theta=s,d=t,alpha=u,a=0.5)",Frame::DH_Craig1989(0.5,u,t,s)); p.run("C=Frame(F)\nC.p=a\na[0]=77"); Frame C=F; C.p=a; P("C",C); p.set("a",a); p.run("C=Frame(F)\nC.M=G.M\nC.p[2]=s"); C=F; C.M=G.M; C.p.data[2]=s; P("C",C); p.run("w=Frame(F).M"); P("w",F.M); shown(p,"F",F); copies(p,"F",F,"@[1,2]=123\n@.p=Vector(1,2,3)"); END; }
VX_CASE(frame_equal){ Py p; Frame R=sframe_free("R"),Q=R; int k=vx::choose("differs at",12); (k<9?Q.M.data[k]:Q.p.data[k-9])+=vx::real("s"); p.set("R",R); p.set("Q",Q); switch(vx::choose("op",4)){ case 0: P("R==Q",R==Q); break; case 1: P("R!=Q",R!=Q); break; case 2: P("Equal(R,Q)",Equal(R,Q)); break; case 3: P("Equal(R,Q,0.25)",Equal(R,Q,0.25)); } END; }
VX_CASE(frame_motion){ Py p; double s=vx::real("s"); vx::assume_lt(0.01,s); Frame F(Rotation::RotX(vx::real("R")),svec("p")); Twist T=stwist("T"); p.set("F",F); p.set("T",T); p.set("s",s); int k=vx::choose("op",5); if(k==0){ p.run("C=Frame(F)\nC.Integrate(T,s)"); Frame C=F; C.Integrate(T,s); P("C",C); } if(k==1) P("addDelta(F,T)",addDelta(F,T)); if(k==2) P("addDelta(F,T,0.5)",addDelta(F,T,0.5)); if(k>=3){ Frame G(Rotation::RotX(vx::real("o")),svec("q")); p.set("G",G); if(k==3) P("diff(F,G)",diff(F,G)); else P("diff(F,G,s)",diff(F,G,s)); } END; }
VX_CASE(frame_pickle){ Py p; Frame F(Rotation::RotX(vx::range("roll",-3,3)),svec("p")); p.set("F",F); pickles(p,"F",F); END; }
// values with velocity -----------------------------------------------------------------------------------------------------------
static doubleVel sdv(const string&n){ return doubleVel(vx::real(n+".t"),vx::real(n+".grad")); }
static VectorVel svv(const string&n){ return VectorVel(svec(n+".p"),svec(n+".v")); }
static RotationVel srv(const string&n){ return RotationVel(skmat(n+".R"),svec(n+".w")); }
static FrameVel sfv(const string&n){ return FrameVel(srv(n+".M"),svv(n+".p")); }
static TwistVel stv(const string&n){ return TwistVel(svv(n+".vel"),svv(n+".rot")); }
VX_CASE(doublevel){ VARS; doubleVel x=sdv("x"),y=sdv("y"); p.set("x",x); p.set("y",y); P("x.t",x.t); P("x.grad",x.grad); P("x.value()",x.value()); P("x.deriv()",x.deriv()); P("doubleVel()",doubleVel()); P("doubleVel(s)",doubleVel(s)); P("doubleVel(s,t)",doubleVel(s,t)); P("-x",-x); P("diff(x,y)",diff(x,y)); P("addDelta(x,y)",addDelta(x,y)); P("addDelta(x,y,s)",addDelta(x,y,s)); p.run("c=doubleVel(x)\nc.t=s"); doubleVel c=x; c.t=s; P("c",c); p.run("c=doubleVel(x)\nc.grad=s"); c=x; c.grad=s; P("c",c); shown(p,"x",x); copies(p,"x",x,"@.t=9\n@.grad=8"); vx::assume_ne(s,0); P("diff(x,y,s)",diff(x,y,s)); END; }
VX_CASE(doublevel_equal){ Py p; doubleVel x=sdv("x"),y=x; (vx::flip("grad")?y.grad:y.t)+=vx::real("s"); p.set("x",x); p.set("y",y); switch(vx::choose("op",4)){ case 0: P("x==y",x==y); break; case 1: P("x!=y",x!=y); break; case 2: P("Equal(x,y)",Equal(x,y)); break; case 3: P("Equal(x,y,0.25)",Equal(x,y,0.25)); } END; }
VX_CASE(vectorvel){ VARS; VectorVel x=svv("x"),y=svv("y"); doubleVel d=sdv("d"); Rotation R=skmat("R"); p.set("x",x); p.set("y",y); p.set("d",d); p.set("R",R); P("x+y",x+y); P("x-y",x-y); P("a+x",a+x); P("a-x",a-x); P("x+a",x+a); P("x-a",x-a); P("x*y",x*y); P("x*a",x*a); P("a*x",a*x); P("s*x",s*x); P("x*s",x*s); P("d*x",d*x); P("x*d",x*d); P("R*x",R*x); P("-x",-x); P("dot(x,y)",dot(x,y)); P("dot(x,a)",dot(x,a)); P("dot(a,x)",dot(a,x)); P("x.p",x.p); P("x.v",x.v); P("x.value()",x.value()); P("x.deriv()",x.deriv()); P("VectorVel()",VectorVel::Zero()); P("VectorVel.Zero()",VectorVel::Zero()); P("VectorVel(a,b)",VectorVel(a,b)); P("VectorVel(v=a,p=b)",VectorVel(b,a)); P("VectorVel(a)",VectorVel(a)); P("diff(x,y)",diff(x,y)); P("addDelta(x,y)",addDelta(x,y)); P("addDelta(x,y,s)",addDelta(x,y,s)); p.run("c=VectorVel(x)\nc+=y"); P("c",x+y); p.run("c=VectorVel(x)\nc-=y"); P("c",x-y); p.run("c=VectorVel(x)\nc.ReverseSign()"); P("c",-x); p.run("c=VectorVel(x)\nSetToZero(c)"); P("c",VectorVel::Zero()); p.run("c=VectorVel(x)\nc.p=a\nc.v[1]=s"); VectorVel c=x; c.p=a; c.v.data[1]=s; P("c",c); shown(p,"x",x); copies(p,"x",x,"@.p=Vector(1,2,3)\n@.v[0]=4"); pickles(p,"x",x); END; }
VX_CASE(vectorvel_div){ VARS; VectorVel x=svv("x"),y=svv("y"); doubleVel d=sdv("d"); vx::assume_ne(s,0); vx::assume_ne(d.t,0); p.set("x",x); p.set("y",y); p.set("d",d); P("x/s",x/s); P("x/d",x/d); P("diff(x,y,s)",diff(x,y,s)); END; }
VX_CASE(vectorvel_norm){ Py p; VectorVel x=svv("x"); p.set("x",x); P("x.Norm()",x.Norm()); P("x.Norm(eps=0.5)",x.Norm(0.5)); END; }
#define EQOPS(x,y,z) switch(vx::choose("op",10)){ case 0: P("x==y",x==y); break; case 1: P("x!=y",x!=y); break; case 2: P("Equal(x,y)",Equal(x,y)); break; case 3: P("Equal(x,y,0.25)",Equal(x,y,0.25)); break; case 4: P("x==z",x==z); break; case 5: P("z!=x",z!=x); break; case 6: P("z==x",z==x); break; case 7: P("x!=z",x!=z); break; case 8: P("Equal(x,z)",Equal(x,z)); break; case 9: P("Equal(z,x,0.25)",Equal(z,x,0.25)); }
VX_CASE(vectorvel_equal){ Py p; VectorVel x=svv("x"),y=x; Vector z=x.p; double s=vx::real("s"); int k=vx::choose("differs at",3); if(vx::flip("velocity")){ y.v.data[k]+=s; x.v=Vector(k==0?s:0,k==1?s:0,k==2?s:0); y.v=Vector::Zero(); } else { x.v=y.v=Vector::Zero(); y.p.data[k]+=s; z.data[k]+=s; } p.set("x",x); p.set("y",y); p.set("z",z); EQOPS(x,y,z) END; }
VX_CASE(rotationvel_equal){ Py p; RotationVel x=srv("x"),y=x; Rotation z=x.R; double s=vx::real("s"); int k=vx::choose("differs at",3); if(vx::flip("velocity")){ x.w=Vector(k==0?s:0,k==1?s:0,k==2?s:0); y.w=Vector::Zero(); } else { x.w=y.w=Vector::Zero(); y.R.data[k*4]+=s; z.data[k*4]+=s; } p.set("x",x); p.set("y",y); p.set("z",z); EQOPS(x,y,z) END; }
VX_CASE(twistvel_equal){ Py p; TwistVel x=stv("x"),y=x; double s=vx::real("s"); int k=vx::choose("differs at",3); x.vel.v=x.rot.v=Vector::Zero(); y=x; Twist z=x.value(); if(vx::flip("velocity")) x.rot.v.data[k]=s; else { y.vel.p.data[k]+=s; z.vel.data[k]+=s; } p.set("x",x); p.set("y",y); p.set("z",z); EQOPS(x,y,z) END; }
VX_CASE(framevel_equal){ Py p; FrameVel x=sfv("x"); double s=vx::real("s"); int k=vx::choose("differs at",3); x.M.w=x.p.v=Vector::Zero(); FrameVel y=x; Frame z=x.value(); if(vx::flip("velocity")) x.p.v.data[k]=s; else { y.M.R.data[k]+=s; z.M.data[k]+=s; } p.set("x",x); p.set("y",y); p.set("z",z); EQOPS(x,y,z) END; }
VX_CASE(twistvel){ VARS; TwistVel x=stv("x"),y=stv("y"); doubleVel d=sdv("d"); VectorVel v=svv("v"),w=svv("w"); Twist T=stwist("T"),U=stwist("U"); p.set("x",x); p.set("y",y); p.set("d",d); p.set("v",v); p.set("w",w); p.set("T",T); p.set("U",U); P("x+y",x+y); P("x-y",x-y); P("x*s",x*s); P("s*x",s*x); P("x*d",x*d); P("d*x",d*x); P("-x",-x); P("x.vel",x.vel); P("x.rot",x.rot); P("x.value()",x.value()); P("x.deriv()",x.deriv()); P("x.GetTwist()",x.GetTwist()); P("x.GetTwistDot()",x.GetTwistDot()); P("x.RefPoint(v)",x.RefPoint(v)); P("TwistVel()",TwistVel::Zero()); P("TwistVel.Zero()",TwistVel::Zero()); P("TwistVel(v,w)",TwistVel(v,w)); P("TwistVel(rot=v,vel=w)",TwistVel(w,v)); P("TwistVel(T,U)",TwistVel(T,U)); P("TwistVel(v=T,p=U)",TwistVel(U,T)); P("TwistVel(T)",TwistVel(T)); p.run("c=TwistVel(x)\nc+=y"); P("c",x+y); p.run("c=TwistVel(x)\nc-=y"); P("c",x-y); p.run("c=TwistVel(x)\nc.ReverseSign()"); P("c",-x); p.run("c=TwistVel(x)\nSetToZero(c)"); P("c",TwistVel::Zero()); p.run("c=TwistVel(x)\nc.rot=v\nc.vel.p=a"); TwistVel c=x; c.rot=v; c.vel.p=a; P("c",c); shown(p,"x",x); copies(p,"x",x,"@.rot=VectorVel()\n@.vel.v[1]=3"); pickles(p,"x",x); vx::assume_ne(s,0); vx::assume_ne(d.t,0); P("x/s",x/s); P("x/d",x/d); END; }
VX_CASE(rotationvel){ VARS; RotationVel x=srv("x"),y=srv("y"); VectorVel v=svv("v"); TwistVel tv=stv("tv"); Twist T=stwist("T"); Rotation R=skmat("R"); p.set("x",x); p.set("y",y); p.set("v",v); p.set("tv",tv); p.set("T",T); p.set("R",R); P("x*y",x*y); P("x*v",x*v); P("x*a",x*a); P("x*tv",x*tv); P("x*T",x*T); P("R*x",R*x); P("x*R",x*R); P("x.Inverse()",x.Inverse()); P("x.Inverse(v)",x.Inverse(v)); P("x.Inverse(a)",x.Inverse(a)); P("x.Inverse(tv)",x.Inverse(tv)); P("x.Inverse(T)",x.Inverse(T)); P("x.UnitX()",x.UnitX()); P("x.UnitY()",x.UnitY()); P("x.UnitZ()",x.UnitZ()); P("x.R",x.R); P("x.w",x.w); P("x.value()",x.value()); P("x.deriv()",x.deriv()); P("RotationVel()",RotationVel::Identity()); P("RotationVel.Identity()",RotationVel::Identity()); P("RotationVel(R)",RotationVel(R)); P("RotationVel(R,a)",RotationVel(R,a)); P("RotationVel(w=a,R=R)",RotationVel(R,a)); doubleVel d=sdv("d"); p.set("d",d); P("RotationVel.RotX(d)",RotationVel::RotX(d)); P("RotationVel.RotY(d)",RotationVel::RotY(d)); P("RotationVel.RotZ(d)",RotationVel::RotZ(d)); P("RotationVel.Rot2(a,d)",RotationVel::Rot2(a,d)); RotationVel c; p.run("c=RotationVel(x)\nc.DoRotX(d)"); c=x; c.DoRotX(d); P("c",c); p.run("c=RotationVel(x)\nc.DoRotY(d)"); c=x; c.DoRotY(d); P("c",c); p.run("c=RotationVel(x)\nc.DoRotZ(d)"); c=x; c.DoRotZ(d); P("c",c); p.run("c=RotationVel(x)\nc.w=a\nc.R=R"); P("c",RotationVel(R,a)); shown(p,"x",x); copies(p,"x",x,"@.w=Vector(1,2,3)\n@.R[1,1]=4"); END; }
VX_CASE(rotationvel_more){ Py p; int k=vx::choose("op",3); Vector a=svec("a"); double s=vx::real("s"); p.set("a",a); p.set("s",s); if(k==0){ doubleVel d=sdv("d"); p.set("d",d); P("RotationVel.Rot(a,d)",RotationVel::Rot(a,d)); } if(k==1){ RotationVel x(Rotation::RotX(vx::range("roll",-3,3)),a); p.set("x",x); pickles(p,"x",x); } if(k==2){ RotationVel x(Rotation::RotX(vx::real("R")),a); VectorVel v=svv("v"); p.set("x",x); p.set("v",v); if(vx::flip("default step")) P("addDelta(x,v)",addDelta(x,v)); else P("addDelta(x,v,0.5)",addDelta(x,v,0.5)); } END; }
VX_CASE(rotationvel_diff){ Py p; double s=vx::real("s"); vx::assume_ne(s,0); RotationVel x(Rotation::RotX(vx::real("o")),svec("u")),y(Rotation::RotX(vx::real("R")),svec("w")); p.set("x",x); p.set("y",y); p.set("s",s); if(vx::flip("default step")) P("diff(x,y)",diff(x,y)); else P("diff(x,y,s)",diff(x,y,s)); END; }
VX_CASE(framevel){ VARS; FrameVel x=sfv("x"),y=sfv("y"); VectorVel v=svv("v"); TwistVel tv=stv("tv"); Twist T=stwist("T"); Frame F=sframe_free("F"); RotationVel R=srv("R"); p.set("x",x); p.set("y",y); p.set("v",v); p.set("tv",tv); p.set("T",T); p.set("F",F); p.set("R",R); P("x*y",x*y); P("x*v",x*v); P("x*a",x*a); P("x*tv",x*tv); P("x*T",x*T); P("F*x",F*x); P("x*F",x*F); P("x.Inverse()",x.Inverse()); P("x.Inverse(v)",x.Inverse(v)); P("x.Inverse(a)",x.Inverse(a)); P("x.Inverse(tv)",x.Inverse(tv)); P("x.Inverse(T)",x.Inverse(T)); P("x.M",x.M); P("x.p",x.p); P("x.value()",x.value()); P("x.deriv()",x.deriv()); P("x.GetFrame()",x.GetFrame()); P("x.GetTwist()",x.GetTwist()); P("FrameVel()",FrameVel::Identity()); P("FrameVel.Identity()",FrameVel::Identity()); P("FrameVel(F)",FrameVel(F)); P("FrameVel(F,T)",FrameVel(F,T)); P("FrameVel(t=T,T=F)",FrameVel(F,T)); P("FrameVel(R,v)",FrameVel(R,v)); P("FrameVel(p=v,M=R)",FrameVel(R,v)); p.run("c=FrameVel(x)\nc.p=v\nc.M.w=a"); FrameVel c=x; c.p=v; c.M.w=a; P("c",c); p.run("c=FrameVel(x)\nc.M=R\nc.p.p[2]=s"); c=x; c.M=R; c.p.p.data[2]=s; P("c",c); shown(p,"x",x); copies(p,"x",x,"@.p=VectorVel()\n@.M.w[0]=3"); END; }
VX_CASE(framevel_motion){ Py p; double s=vx::real("s"); vx::assume_ne(s,0); FrameVel x(RotationVel(Rotation::RotX(vx::real("R")),svec("w")),svv("p")); TwistVel t=stv("t"); p.set("x",x); p.set("t",t); p.set("s",s); int k=vx::choose("op",5); if(k==0) P("addDelta(x,t)",addDelta(x,t)); if(k==1) P("addDelta(x,t,0.5)",addDelta(x,t,0.5)); if(k==2){ FrameVel y(RotationVel(Rotation::RotX(vx::range("roll",-3,3)),svec("u")),svv("q")); p.set("y",y); pickles(p,"y",y); } if(k>=3){ FrameVel y(RotationVel(Rotation::RotX(vx::real("o")),svec("u")),svv("q")); p.set("y",y); if(k==3) P("diff(x,y)",diff(x,y)); else P("diff(x,y,s)",diff(x,y,s)); } END; }
VX_CASE(misuse){ Py p; for(string s:{"Vector(1,2)","Vector('a',1,2)","Vector(1,2,3)+1","Vector(1,2,3)[0.5]","Rotation(1,2)","Rotation()[1]","Rotation()[0,1,2]","Frame(1)","Twist(1,2)","Twist(Vector(),1)","Frame()*2","Rotation()*Frame()","Vector()*Rotation()","Rotation.RotX('x')","Equal(Vector(),Rotation())","dot(Twist(),Twist())","FrameVel(1)","VectorVel()*TwistVel()","Twist()+Wrench()","Vector().x(1,2)"}) vx::check(s+" raises TypeError",p.error(s)=="TypeError"); END; }
