// SRC: path_composite path_cyclic_closed path_roundedcomposite path_line path_circle frames utilities/utility utilities/error_stack
// BOUNDS: composites of one to three parts of any length (also zero), any query position and up to two earlier queries; cyclic paths of one to three turns; rounded paths of one to four points with corners of any angle (radius, lengths, poses symbolic), each documented refusal
#include "mock.h"
#include <path_composite.hpp>
#include <path_cyclic_closed.hpp>
#include <path_roundedcomposite.hpp>
#include <utilities/error.h>
using namespace KDL; using namespace kx;
static double pos(const string&n,double lo=0.1,double hi=5){ double x=vx::real_s(n,lo,hi); vx::assume_lt(0,x); return x; }
// interpolation with start and end matched for any pair of orientations (linear in between); unit angle
struct LInterp:RotationalInterpolation{ Rotation s,e; LInterp(){ ALIVE++; } ~LInterp(){ ALIVE--; } void SetStartEnd(Rotation a,Rotation b){ s=a; e=b; } double Angle(){ return 1; } Rotation Pos(double t)const{ Rotation r; for(int i=0;i<9;i++) r.data[i]=s.data[i]+t*(e.data[i]-s.data[i]); return r; } Vector Vel(double t,double d)const{ return Vector(0,0,d); } Vector Acc(double t,double d,double dd)const{ return Vector(0,0,dd); } void Write(std::ostream&)const{} RotationalInterpolation*Clone()const{ LInterp*c=new LInterp; c->s=s; c->e=e; return c; } };
static const double N=1e9;
static void query(Path_Composite&P,int k,double s){ int n; double in; if(k==1) P.Pos(s); if(k==2) P.GetCurrentSegmentLocation(s,n,in); if(k==3) P.Vel(s,1); }
VX_CASE(composite){ int n=1+vx::choose("parts",3); double L[3],E[3],tot=0; Path_Composite P; bool own=!vx::flip("shared parts"); int base=ALIVE; std::vector<Path*> ps; { Path_Composite Q; int early=vx::choose("queried while building",2); for(int i=0;i<n;i++){ L[i]=vx::flip(idx("empty part",i))?0.0:pos(idx("L",i)); tot=tot+L[i]; E[i]=tot; Path*p=new MPath(10+i,L[i]); ps.push_back(p); Q.Add(p,own); if(early&&i==0) Q.Pos(0); } eq("length",Q.PathLength(),tot); vx::check("number of parts",Q.GetNrOfSegments()==n); for(int i=0;i<n;i++){ eq(idx("end of part",i),Q.GetLengthToEndOfSegment(i),E[i]); vx::check("part",Q.GetSegment(i)==ps[i]); }
  int h=vx::choose("earlier query",3); if(h){ double s0=vx::flip("at a joint")?E[vx::choose("which",n)]:vx::real_s("s0",0,5); vx::assume_le(0,s0); vx::assume_le(s0,tot); query(Q,h,s0); }
  double s; int at=vx::choose("at",n+2); if(at==0) s=0; else if(at<=n) s=E[at-1]; else { s=vx::real_s("s",0,5); vx::assume_le(0,s); vx::assume_le(s,tot); }
  int k=0; double st=0; while(k<n-1&&s>E[k]){ st=E[k]; k++; } double sd=vx::real("sd"),sdd=vx::real("sdd"); MPath ref(10+k,L[k]); eq("pose",Q.Pos(s),ref.Pos(s-st)); eq("velocity",Q.Vel(s,sd),ref.Vel(s-st,sd)); eq("acceleration",Q.Acc(s,sd,sdd),ref.Acc(s-st,sd,sdd)); int seg=-1; double in=-1; Q.GetCurrentSegmentLocation(s,seg,in); vx::check("current part",seg==k); eq("position in part",in,s-st); vx::reach("end"); }
  if(own) vx::check("owned parts released",ALIVE==base); else { for(auto p:ps) delete p; vx::check("shared parts kept",ALIVE==base); } }
VX_CASE(cyclic){ double L=pos("L"); int times=1+vx::choose("turns",3); int base=ALIVE; { Path_Cyclic_Closed P(new MPath(3,L),times); eq("length",P.PathLength(),L*times); int k=vx::choose("turn",times); double x=vx::real_s("x",0,3); vx::assume_le(0,x); vx::assume_lt(x,L); double s=k*L+x,sd=vx::real("sd"),sdd=vx::real("sdd"); MPath r(3,L); eq("pose repeats",P.Pos(s),r.Pos(x)); eq("velocity repeats",P.Vel(s,sd),r.Vel(x,sd)); eq("acceleration repeats",P.Acc(s,sd,sdd),r.Acc(x,sd,sdd)); eq("start",P.Pos(0),r.Pos(0)); } vx::check("owned path released",ALIVE==base); MPath*g=new MPath(3,L); { Path_Cyclic_Closed P(g,times,false); } vx::check("shared path kept",ALIVE==base+1); delete g; }
template<class F> static int thrown(F f){ try { f(); } catch(Error&e){ return e.GetType(); } return 0; }
static bool same_dir(const string&l,V3 a,V3 b){ eq(l+" direction",cross(a,b),v3(0,0,0),1e-4); vx::check_lt(l+" not reversed",0,dot(a,b)); return true; }
// neighbouring parts meet: same pose, same tangent
static void seams(Path_RoundedComposite&P,bool tangent=true){ int n=P.GetNrOfSegments(); for(int i=0;i+1<n;i++){ Path*a=P.GetSegment(i),*b=P.GetSegment(i+1); double La=a->PathLength(); Frame fa=a->Pos(La),fb=b->Pos(0); string l=idx("seam",i); eq(l+" position",fa.p,fb.p,1e-4); eq(l+" orientation",fa.M,fb.M,1e-4); if(tangent) same_dir(l,of(a->Vel(La,1).vel),of(b->Vel(0,1).vel)); } }

// corner in the plane (x,y): first leg of length a along x, second of length b turned by ang (cos c, sin s > 0) towards y; arc of radius r between them
static void corner(V3 x,V3 y,double a,double b,double r,double c,double s,double ang,double q,const M3&R0,const M3&R1,const M3&R2,V3 p0){ V3 w=c*x+s*y,p1=p0+a*x,p2=p1+b*w; double d=r*s/(1+c); vx::assume_lt(d,a-1e-3); vx::assume_lt(d,b-1e-3); int base=ALIVE; { Path_RoundedComposite P(r,q,new LInterp); P.Add(Frame(kr(R0),kv(p0))); P.Add(Frame(kr(R1),kv(p1))); P.Add(Frame(kr(R2),kv(p2))); P.Finish(); vx::check("line, arc, line",P.GetNrOfSegments()==3); seams(P); Path*l1=P.GetSegment(0),*arc=P.GetSegment(1),*l2=P.GetSegment(2); double La=arc->PathLength(); eq("starts at the first point",P.Pos(0),Frame(kr(R0),kv(p0)),1e-4); eq("ends at the last point",l2->Pos(l2->PathLength()),Frame(kr(R2),kv(p2)),1e-4); eq("arc starts on the first leg",of(arc->Pos(0).p),p1-d*x,1e-4); eq("arc ends on the second leg",of(arc->Pos(La).p),p1+d*w,1e-4); V3 m=p1-d*x+r*y; double t=vx::real_s("t",0,1); V3 e=of(arc->Pos(t*La).p)-m; eq("arc keeps the radius",dot(e,e),r*r,1e-4); V3 g=of(l1->Pos(l1->PathLength()*t).p)-p0; eq("first leg straight",cross(g,x),v3(0,0,0),1e-4); g=of(l2->Pos(l2->PathLength()*t).p)-p1; eq("second leg straight",cross(g,w),v3(0,0,0),1e-4); double want=r*ang; eq("arc length",La,want>q?want:q,1e-4); eq("length",P.PathLength(),l1->PathLength()+La+l2->PathLength(),1e-4); eq("end of the arc",P.GetLengthToEndOfSegment(1),l1->PathLength()+La,1e-4); vx::reach("end"); } vx::check("everything released",ALIVE==base); }
VX_CASE(any_angle){ double h=vx::range("turn",0.01,3.1); double r=pos("radius",0.05,0.3); vx::assume_lt(1e-3,r); double a=pos("a",2,6),b=pos("b",2,6); vx::assume_lt(0.01,cos(h/2)); vx::assume_lt(0.001,sin(h/2)); corner(v3(1,0,0),v3(0,1,0),a,b,r,cos(h),sin(h),h,1e-5,eye(),rotx(1),roty(1),v3(0,0,0)); }
VX_CASE(rotation_dominates){ double h=vx::range("turn",0.1,3.0),q=pos("eqradius",1,20); vx::assume_lt(1,q); vx::assume_lt(0.05,cos(h/2)); vx::assume_lt(0.01,sin(h/2)); corner(v3(1,0,0),v3(0,1,0),3,5,0.125,cos(h),sin(h),h,q,eye(),rotx(1),roty(1),v3(0,0,0)); }
VX_CASE(right_angle_anywhere){ V3 p0=sv("p0"); int k=vx::choose("plane",4); double g=vx::real("plane angle"); M3 B=k==0?rotx(g):k==1?roty(g):k==2?rotz(g):eye(); double r=pos("radius",0.05,0.3); vx::assume_lt(1e-3,r); double a=vx::flip("same legs")?2*r:pos("a",2,6),b=pos("b",2,6); corner(mul(B,v3(1,0,0)),mul(B,v3(0,1,0)),a,b,r,0,1,1.5707963267948966,1e-5,eye(),rotx(1),roty(1),p0); }
static double O[4]; static void orients(){ for(int i=0;i<4;i++) O[i]=vx::real(idx("orientation",i)); }
static Frame F(V3 p,int i){ return Frame(kr(rotx(O[i])),kv(p)); }
// four points, two right-angled corners, optionally out of plane
VX_CASE(two_corners){ orients(); double a=pos("a",2,6),b=pos("b",2,6),c=pos("c",2,6),r=pos("radius",0.05,0.3); vx::assume_lt(1e-3,r); vx::assume_lt(r+1e-3,a); vx::assume_lt(2*r+1e-3,b); vx::assume_lt(r+1e-3,c); int k=vx::choose("shape",3); V3 p[4]; p[0]=sv("p0"); p[1]=p[0]+v3(a,0,0); p[2]=p[1]+v3(0,b,0); p[3]=p[2]+(k==0?v3(c,0,0):k==1?v3(-c,0,0):v3(0,0,c)); Path_RoundedComposite P(r,1e-5,new LInterp); for(int i=0;i<4;i++) P.Add(F(p[i],i)); P.Finish(); vx::check("five parts",P.GetNrOfSegments()==5); seams(P); double tot=0,pi2=1.5707963267948966; for(int i=0;i<5;i++){ double L=P.GetSegment(i)->PathLength(); double w=i==0?a-r:i==2?b-2*r:i==4?c-r:r*pi2; eq(idx("length of part",i),L,w,1e-3); tot=tot+L; } eq("length",P.PathLength(),tot,1e-4); eq("starts at the first point",P.Pos(0),F(p[0],0),1e-4); Path*e=P.GetSegment(4); eq("ends at the last point",e->Pos(e->PathLength()),F(p[3],3),1e-4); double s=vx::real_s("s",0,1); vx::assume_lt(1e-3,s); vx::assume_lt(s,1-1e-3); int i=vx::choose("part",5); double st=i?P.GetLengthToEndOfSegment(i-1):0.0,L=P.GetSegment(i)->PathLength(); eq("plays its parts",P.Pos(st+s*L),P.GetSegment(i)->Pos(s*L),1e-4); eq("moves with its parts",P.Vel(st+s*L,2),P.GetSegment(i)->Vel(s*L,2),1e-3); eq("accelerates with its parts",P.Acc(st+s*L,2,3),P.GetSegment(i)->Acc(s*L,2,3),1e-3); int seg; double in; P.GetCurrentSegmentLocation(st+s*L,seg,in); vx::check("current part",seg==i); eq("position in part",in,s*L,1e-4); }
VX_CASE(straight){ orients(); double a=pos("a"),b=pos("b"); vx::assume_lt(1e-3,a); vx::assume_lt(1e-3,b); V3 p0=sv("p0"); V3 u=v3(0,0,0); u[vx::choose("axis",3)]=vx::flip("back")?-1:1; V3 p1=p0+a*u,p2=p1+b*u; Path_RoundedComposite P(pos("radius"),1e-5,new LInterp); P.Add(F(p0,0)); P.Add(F(p1,1)); P.Add(F(p2,2)); P.Finish(); vx::check("two lines",P.GetNrOfSegments()==2); seams(P); eq("length",P.PathLength(),a+b,1e-4); Path*e=P.GetSegment(1); eq("middle",P.GetSegment(1)->Pos(0),F(p1,1),1e-4); eq("starts at the first point",P.Pos(0),F(p0,0),1e-4); eq("ends at the last point",e->Pos(e->PathLength()),F(p2,2),1e-4); }
VX_CASE(few_points){ orients(); V3 p0=sv("p0"),d=v3(0,0,0); int n=vx::choose("points",3); d[vx::choose("axis",3)]=pos("a"); vx::assume_lt(1e-3,dot(d,d)); int base=ALIVE; { Path_RoundedComposite P(pos("radius"),1e-5,new LInterp); if(n>0) P.Add(F(p0,0)); if(n>1) P.Add(F(p0+d,1)); P.Finish(); if(n==0){ eq("no length",P.PathLength(),0); vx::check("no parts",P.GetNrOfSegments()==0); } else { eq("starts at the first point",P.Pos(0),F(p0,0),1e-4); if(n==1){ Frame f=P.Pos(P.PathLength()); eq("stays at the only point",of(f.p),p0,1e-4); eq("no translation",P.GetSegment(0)->Pos(P.PathLength()).p,kv(p0),1e-4); } else { vx::check("one line",P.GetNrOfSegments()==1); eq("ends at the last point",P.Pos(P.PathLength()),F(p0+d,1),1e-4); } } } vx::check("everything released",ALIVE==base); }
VX_CASE(refused_eqradius){ double q=vx::flip("zero")?0.0:-pos("q"); bool own=vx::flip("owned"); LInterp*I=new LInterp; int t=thrown([&]{ Path_RoundedComposite P(1,q,I,own); }); vx::check("equivalent radius must be positive",t==3101); }
// every documented refusal of a third point leaves the path as it was: a feasible point can still be added
VX_CASE(refused_point){ orients(); V3 p0=sv("p0"); int k=vx::choose("defect",5); double r=pos("radius",0.05,0.5),a=pos("a",2,6),b=pos("b",2,6); vx::assume_lt(1e-3,r); vx::assume_lt(1e-3,a); vx::assume_lt(1e-3,b); int want=3102+k; V3 u=v3(1,0,0),w=v3(0,1,0); V3 p1=p0+a*u,bad; if(k==0){ p1=p0; bad=p0+b*w; } if(k==1) bad=p1; if(k==2) bad=p1-b*u; if(k==3){ vx::assume_lt(a,r); bad=p1+b*w; } if(k==4){ vx::assume_lt(r,a); vx::assume_lt(b,r); bad=p1+b*w; } Path_RoundedComposite P(r,1e-5,new LInterp); P.Add(F(p0,0)); P.Add(F(p1,1)); int t=thrown([&]{ P.Add(F(bad,2)); }); vx::check("documented refusal",t==want); vx::check("nothing added",P.GetNrOfSegments()==0); if(k==1||k==2||k==4){ if(k==4) vx::assume_lt(r+1e-3,a); else vx::assume_lt(r+1e-3,a); V3 p2=p1+v3(0,2*r+1,0); P.Add(F(p2,2)); P.Finish(); vx::check("continues",P.GetNrOfSegments()==3); seams(P); eq("starts at the first point",P.Pos(0),F(p0,0),1e-4); Path*e=P.GetSegment(2); eq("ends at the last point",e->Pos(e->PathLength()),F(p2,2),1e-4); } }
