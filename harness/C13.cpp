// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia jntarray
// BOUNDS: every joint type, all scales, offsets, origins, tip frames, positions and rates; joint axes: coordinate axes, any direction (thorough), one fixed general direction (quick)
#include "chn.h"
using namespace KDL; using namespace kx;
static void judge(const SS&s,const Segment&g,const string&l){ Mot h; Mot::Q q=h.var1(l+"q"); P T=s.pose(q.q); 
  eq(l+" pose(0)",g.pose(0),s.tip); eq(l+" pose",g.pose(q.q),T); eq(l+" frame to tip",g.getFrameToTip(),s.tip);
  Frame F=g.pose(q.q); Tw w=twist_of(h,of(F)); eq(l+" twist",g.twist(q.q,q.d),w,1e-4); eq(l+" tip zero",g.getJoint().pose(0)*g.getFrameToTipZero(),s.tip); }
static SS mks(const string&n,int k,bool sa){ SS s; s.j=mkj(n,k,true,sa); s.tip=mktip(n,1); return s; }
static RigidBodyInertia in(){ return RigidBodyInertia(vx::real("m"),svec("cog"),RotationalInertia(vx::real("xx"),vx::real("yy"),vx::real("zz"),vx::real("xy"),vx::real("xz"),vx::real("yz"))); }
static void eqI(const string&l,const RigidBodyInertia&a,const RigidBodyInertia&b){ eq(l+" mass",a.getMass(),b.getMass()); for(int i=0;i<9;i++) eq(idx(l+" inertia",i),a.getRotationalInertia().data[i],b.getRotationalInertia().data[i]); }
VX_CASE(segment){ SS s=mks("s",vx::choose("type",9),false); bool nm=vx::flip("named"); Segment g=nm?Segment("seg",s.j.joint(),kf(s.tip)):Segment(s.j.joint(),kf(s.tip)); judge(s,g,""); vx::check("name",g.getName()==(nm?"seg":"NoName")); vx::check("joint",g.getJoint().getType()==JT[s.j.k]); eqI("default",g.getInertia(),RigidBodyInertia::Zero()); }
VX_CASE_THOROUGH(segment_axis){ SS s=mks("s",7+vx::choose("type",2),true); Segment g=s.seg(); judge(s,g,""); }
VX_CASE(copies){ SS s=mks("s",vx::choose("type",9),false),o=mks("o",0,false); Segment g=s.seg("A"),c(g),d=o.seg("B"); d=g; c=c; g=o.seg("B"); judge(s,c,"copy"); judge(s,d,"assigned"); judge(o,g,"original reassigned"); vx::check("names",c.getName()=="A"&&d.getName()=="A"&&g.getName()=="B"); vx::check("joint names",c.getJoint().getName()=="A_j"&&d.getJoint().getName()=="A_j"); }
VX_CASE(setters){ SS s=mks("s",vx::choose("type",9),false); Segment g=s.seg("A"); RigidBodyInertia I=in(); g.setInertia(I); judge(s,g,"after setInertia"); SS t=s; t.tip=mktip("n",1); g.setFrameToTip(kf(t.tip)); judge(t,g,"after setFrameToTip"); eqI("inertia",g.getInertia(),I); for(int i=0;i<3;i++) eq(idx("cog",i),g.getInertia().getCOG()(i)*g.getInertia().getMass(),I.getCOG()(i)*I.getMass()); Segment c(g),d("D"); d=g; eqI("copy",c.getInertia(),I); eqI("assign",d.getInertia(),I); Segment k("K",s.j.joint(),kf(s.tip),I); eqI("ctor",k.getInertia(),I); Segment m(s.j.joint(),kf(s.tip),I); eqI("ctor2",m.getInertia(),I); judge(s,m,"ctor"); }
VX_CASE(defaults){ Segment g("x"); eq("default pose",g.pose(vx::real("q")),pid()); vx::check("fixed",g.getJoint().getType()==Joint::Fixed); }
