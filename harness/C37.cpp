// SRC: path_line path_circle path_point frames utilities/utility utilities/error_stack
// BOUNDS: every start and end frame (distance zero or above 1e-5), angle of interpolation (zero, positive), positive equivalent radius, circle centre, radius, plane point on either side and positive sweep angle, path parameter with every rate and acceleration; the rotational interpolation is any single-axis one behind its public interface
#include "mock.h"
#include <path_line.hpp>
#include <path_circle.hpp>
#include <path_point.hpp>
#include <utilities/error.h>
using namespace KDL; using namespace kx;
static double pos(const string&n,double lo=0.1,double hi=5){ double x=vx::real_s(n,lo,hi); vx::assume_lt(0,x); return x; }
static double angle(){ return vx::flip("no rotation")?0.0:pos("alpha",0.05,3); }
// common claims once the path P exists: total length L, interpolation angle al, position as a function p(fraction)
template<class F> static void judge(Path&P,MInterp*I,double L,double al,F where,double travel,const M3&A){
  eq("path length",P.PathLength(),L,1e-5); Mot m; auto s=m.var("s"); V3 p=where(L==0?0.0:s.q/L); double th=L==0?s.q*0:al*s.q/L; Frame f=P.Pos(s.q); if(L!=0){ eq("position",of(f.p),p,1e-5); eq("interpolation parameter",I->th,th,1e-5); }
  Twist v=P.Vel(s.q,s.d),a=P.Acc(s.q,s.d,s.dd); eq("velocity is the derivative",of(v.vel),m.D(of(f.p)),1e-3); eq("acceleration is the derivative",of(a.vel),m.DD(of(f.p)),2e-2);
  if(L!=0){ P.Vel(s.q,s.d); eq("rotation asked at",I->th,th,1e-5); eq("rotation rate",I->thd,al*s.d/L,1e-5); P.Acc(s.q,s.d,s.dd); eq("rotation asked at for acceleration",I->th,th,1e-5); eq("rotation rate for acceleration",I->thd,al*s.d/L,1e-5); eq("rotation acceleration",I->thdd,al*s.dd/L,1e-5); eq("angular velocity",of(v.rot),mul(A,v3(0,0,al*s.d/L)),1e-4); eq("angular acceleration",of(a.rot),mul(A,v3(0,0,al*s.dd/L)),1e-4); }
  eq("starts at the start",of(P.Pos(0).p),where(0.0),1e-5); eq("starts with the start orientation",P.Pos(0).M,A); Frame e=P.Pos(L); eq("ends at the end",of(e.p),where(1.0),1e-5); if(L!=0) eq("ends with the end orientation",e.M,mul(A,rotz(al)),1e-5);
  if(travel!=0){ double x=vx::real("travelled"); eq("length to parameter",P.LengthToS(x),x*L/travel,1e-4); eq("travelled that far",of(P.Pos(P.LengthToS(x)).p),where(x/travel),1e-4); } vx::reach("end"); }
static V3 disp(int k){ V3 d=k==0?v3(0,0,0):k==1?sv("d"):v3(0,vx::real("dy"),0); return d; }
VX_CASE(line){ V3 a=sv("start"),d=disp(vx::choose("displacement",3)); double r=pos("eqradius"),al=angle(); double n2=dot(d,d); if(vx::is_sym(n2)) vx::assume_lt(1e-8,n2); double n=sqrt(n2); M3 A=vx::flip("turned start")?rotx(vx::real("sa")):srot("S"); MInterp*I=new MInterp(al); Frame s(kr(A),kv(a)),e(kr(mul(A,rotz(al))),kv(a+d)); int base=ALIVE; { Path_Line P(s,e,I,r); eq("interpolation starts",I->s,A); eq("interpolation ends",I->e,mul(A,rotz(al))); double L=al*r>n?al*r:n; judge(P,I,L,al,[&](double f){ return a+f*d; },n,A); } vx::check("owned interpolation released",ALIVE==base-1); }
VX_CASE(line_shared){ V3 d=sv("d"); vx::assume_lt(1e-8,dot(d,d)); MInterp I(angle()); int base=ALIVE; { Path_Line P(Frame::Identity(),Frame(kv(d)),&I,pos("eqradius"),false); } vx::check("shared interpolation kept",ALIVE==base); }
VX_CASE(line_twist){ V3 a=sv("start"); int k=vx::choose("twist",4); V3 v=k==0?v3(0,0,0):k==1?sv("d"):v3(0,vx::real("dy"),0); bool rotates=k==0||k==3; V3 w=k==0?sv("w"):k==3?v3(vx::real("wx"),0,0):v3(0,0,0); double r=pos("eqradius"),al=angle(); double n2=dot(v,v),w2=dot(w,w); if(vx::is_sym(n2)) vx::assume_lt(1e-8,n2); if(vx::is_sym(w2)) vx::assume_lt(1e-8,w2); double n=sqrt(n2),wn=sqrt(w2); M3 A=rotx(vx::real("sa")); MInterp*I=new MInterp(al); Path_Line P(Frame(kr(A),kv(a)),Twist(kv(v),kv(w)),I,r); M3 R=eye(); if(rotates) R=axang((1/wn)*w,wn); eq("interpolation starts",I->s,A); eq("interpolation ends",I->e,mul(A,R),1e-5); double L=al*r>n?al*r:n; judge(P,I,L,al,[&](double f){ return a+f*v; },n,A); }
VX_CASE(circle){ V3 c=sv("centre"); int pl=vx::choose("plane",4); M3 B=eye(); if(pl){ double g=vx::real("plane angle"); B=pl==1?rotx(g):pl==2?roty(g):rotz(g); } double R=pos("radius"); vx::assume_lt(1e-3,R); double b=vx::real_s("py",0.1,4),a=pl==0?vx::real("px"):0.0; bool neg=vx::flip("other side"); if(neg) vx::assume_lt(b,-1e-3); else vx::assume_lt(1e-3,b); vx::assume_le(-100,a); vx::assume_le(a,100); double sw=pos("sweep",0.1,6),r=pos("eqradius"),al=angle(); M3 A=pl==0?rotx(vx::real("sa")):eye(); MInterp*I=new MInterp(al); V3 x=mul(B,v3(1,0,0)),y=mul(B,v3(0,1,0)); double sg=neg?-1:1; int base=ALIVE; { Path_Circle P(Frame(kr(A),kv(c+R*x)),kv(c),kv(c+a*x+b*y),kr(mul(A,rotz(al))),sw,I,r); eq("interpolation starts",I->s,A); eq("interpolation ends",I->e,mul(A,rotz(al))); double D=sw*R,L=al*r>D?al*r:D; judge(P,I,L,al,[&](double f){ return c+(R*cos(f*sw))*x+(sg*R*sin(f*sw))*y; },D,A); } vx::check("owned interpolation released",ALIVE==base-1); }
template<class F> static int thrown(F f){ try { f(); } catch(Error&e){ return e.GetType(); } return 0; }
VX_CASE(circle_refused){ V3 c=sv("centre"),u=sunit("u"); bool own=vx::flip("owned"); MInterp*I=new MInterp(1); int base=ALIVE; int k=vx::choose("defect",2); if(k==0){ V3 p=sv("p"); int t=thrown([&]{ Path_Circle P(Frame(kv(c)),kv(c),kv(p),Rotation::Identity(),1,I,1,own); }); vx::check("too small a radius refused",t==3001); } else { double R=pos("radius"); vx::assume_lt(1e-3,R); double q=pos("q"); vx::assume_lt(1e-3,q); if(vx::flip("opposite")) q=-q; int t=thrown([&]{ Path_Circle P(Frame(kv(c+R*u)),kv(c),kv(c+q*u),Rotation::Identity(),1,I,1,own); }); vx::check("no plane refused",t==3002); } vx::check("interpolation released only when owned",ALIVE==(own?base-1:base)); if(!own) delete I; }
VX_CASE(point){ Frame f=sframe("f"); Path_Point P(f); double s=vx::real("s"),d=vx::real("sd"),dd=vx::real("sdd"); eq("stays",P.Pos(s),f); eq("no velocity",P.Vel(s,d),Twist::Zero()); eq("no acceleration",P.Acc(s,d,dd),Twist::Zero()); eq("no length",P.PathLength(),0); }
