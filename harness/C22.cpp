// SRC: frames framevel frameacc utilities/utility jntarray jntarrayvel jntarrayacc jacobian jntspaceinertiamatrix
// BOUNDS: arrays and matrices of size 0..3, all real entries and factors, every aliasing pattern of destination and operands, all resize pairs within 0..4; size 7 as well
#include "mot.h"
#include <jntarray.hpp>
#include <jntarrayvel.hpp>
#include <jntarrayacc.hpp>
#include <jntspaceinertiamatrix.hpp>
using namespace KDL; using namespace kx;
static const int N=3;
static int pick(){ int k=vx::choose("size",N+2); return k>N?7:k; }
static JntArray sa(const string&n,int k){ JntArray r(k); for(int i=0;i<k;i++) r(i)=vx::real(idx(n,i)); return r; }
static void eqa(const string&l,const JntArray&a,const std::vector<double>&b,double tol=1e-6){ vx::check(l+" size",a.rows()==b.size()&&a.columns()==1); if(a.rows()==b.size()) for(size_t i=0;i<b.size();i++) eq(idx(l,i),a(i),b[i],tol); }
static std::vector<double> vec(const JntArray&a){ std::vector<double> r; for(unsigned i=0;i<a.rows();i++) r.push_back(a(i)); return r; }
template<class F> static std::vector<double> el(int k,F f){ std::vector<double> r; for(int i=0;i<k;i++) r.push_back(f(i)); return r; }
VX_CASE(array){ int k=pick(); JntArray a=sa("a",k),b=sa("b",k); auto x=vec(a),y=vec(b); double s=vx::real("s"); vx::assume_ne(s,0); int al=vx::choose("alias",4); // 0 separate, 1 dest=first, 2 dest=second, 3 all the same
  JntArray d=vx::flip("fresh")?JntArray():sa("d",k); auto op=[&](const string&l,auto f,auto g){ JntArray A=a,B=b,D=d; if(al==0) f(A,B,D); else if(al==1) f(A,B,A); else if(al==2) f(A,B,B); else f(A,A,A); const JntArray&R=al==0?D:al==2?B:A; eqa(l,R,el(k,[&](int i){ return g(x[i],al==3?x[i]:y[i]); })); if(al!=1&&al!=3) eqa(l+" first operand",A,x); if(al<2) eqa(l+" second operand",B,y); };
  op("Add",[](auto&A,auto&B,auto&D){ Add(A,B,D); },[](double u,double v){return u+v;}); op("Subtract",[](auto&A,auto&B,auto&D){ Subtract(A,B,D); },[](double u,double v){return u-v;}); op("Multiply",[&](auto&A,auto&B,auto&D){ Multiply(A,s,D); },[&](double u,double v){return u*s;}); op("Divide",[&](auto&A,auto&B,auto&D){ Divide(A,s,D); },[&](double u,double v){return u/s;}); }
VX_CASE(array_misc){ int k=pick(),m=vx::choose("other size",5); JntArray a=sa("a",k); auto x=vec(a); JntArray c(a); eqa("copy",c,x); JntArray d=sa("d",m); d=a; eqa("assign",d,x); a=a; eqa("self assign",a,x); if(k){ double w=vx::real("w"); d(0)=w; eqa("independent",a,x); eqa("copied earlier",c,x); auto z=x; z[0]=w; eqa("element",d,z); int i=vx::choose("i",3); if(i<k){ d(i,0)=w; eq("two-index access",((const JntArray&)d)(i),w); } } JntArray r=a; r.resize(m); eqa("resize keeps and zero-fills",r,el(m,[&](int i){ return i<k?x[i]:0.0; })); SetToZero(r); eqa("zero",r,std::vector<double>(m,0.0)); eqa("constructed",JntArray(m),std::vector<double>(m,0.0)); vx::check("default empty",JntArray().rows()==0); }
// -------- with velocities / accelerations: products and quotients follow the product rule
struct J2{ std::vector<double> q,d,dd; }; 
static JntArrayVel sav(const string&n,int k){ return JntArrayVel(sa(n+".q",k),sa(n+".qd",k)); }
static JntArrayAcc saa(const string&n,int k){ return JntArrayAcc(sa(n+".q",k),sa(n+".qd",k),sa(n+".qdd",k)); }
static void eqv(const string&l,const JntArrayVel&a,const std::vector<double>&q,const std::vector<double>&d){ eqa(l+" q",a.q,q); eqa(l+" qdot",a.qdot,d,1e-5); }
static void eqc(const string&l,const JntArrayAcc&a,const std::vector<double>&q,const std::vector<double>&d,const std::vector<double>&dd){ eqa(l+" q",a.q,q); eqa(l+" qdot",a.qdot,d,1e-5); eqa(l+" qdotdot",a.qdotdot,dd,1e-5); }
VX_CASE(vel){ int k=pick(); bool al=vx::flip("alias"),fr=vx::flip("fresh"); JntArrayVel a=sav("a",k),b=sav("b",k); JntArray c=sa("c",k); double s=vx::real("s"); doubleVel f(vx::real("f"),vx::real("fd")); vx::assume_ne(s,0); vx::assume_ne(f.t,0); auto q=vec(a.q),d=vec(a.qdot),r=vec(b.q),e=vec(b.qdot),g=vec(c);
  auto op=[&](const string&l,auto run,auto fq,auto fd){ JntArrayVel A=a,D=fr?JntArrayVel():sav("D",k); if(al) run(A,A); else run(A,D); eqv(l,al?A:D,el(k,fq),el(k,fd)); if(!al) eqv(l+" operand",A,q,d); };
  op("Add",[&](auto&A,auto&D){ Add(A,b,D); },[&](int i){return q[i]+r[i];},[&](int i){return d[i]+e[i];}); op("Add array",[&](auto&A,auto&D){ Add(A,c,D); },[&](int i){return q[i]+g[i];},[&](int i){return d[i];}); op("Subtract",[&](auto&A,auto&D){ Subtract(A,b,D); },[&](int i){return q[i]-r[i];},[&](int i){return d[i]-e[i];}); op("Subtract array",[&](auto&A,auto&D){ Subtract(A,c,D); },[&](int i){return q[i]-g[i];},[&](int i){return d[i];});
  op("Multiply",[&](auto&A,auto&D){ Multiply(A,s,D); },[&](int i){return q[i]*s;},[&](int i){return d[i]*s;}); op("Multiply dual",[&](auto&A,auto&D){ Multiply(A,f,D); },[&](int i){return q[i]*f.t;},[&](int i){return d[i]*f.t+q[i]*f.grad;}); op("Divide",[&](auto&A,auto&D){ Divide(A,s,D); },[&](int i){return q[i]/s;},[&](int i){return d[i]/s;}); op("Divide dual",[&](auto&A,auto&D){ Divide(A,f,D); },[&](int i){return q[i]/f.t;},[&](int i){return d[i]/f.t-q[i]*f.grad/(f.t*f.t);});
  JntArrayVel B=b,A=a; Subtract(A,B,B); eqv("dest = second operand",B,el(k,[&](int i){return q[i]-r[i];}),el(k,[&](int i){return d[i]-e[i];})); }
VX_CASE(acc){ int k=pick(); bool al=vx::flip("alias"),fr=vx::flip("fresh"); JntArrayAcc a=saa("a",k),b=saa("b",k); JntArray c=sa("c",k); JntArrayVel v=sav("v",k); double s=vx::real("s"); doubleVel f(vx::real("f"),vx::real("fd")); doubleAcc h(vx::real("h"),vx::real("hd"),vx::real("hdd")); vx::assume_ne(s,0); vx::assume_ne(f.t,0); vx::assume_ne(h.t,0); auto q=vec(a.q),d=vec(a.qdot),z=vec(a.qdotdot),r=vec(b.q),e=vec(b.qdot),y=vec(b.qdotdot),g=vec(c),vq=vec(v.q),vd=vec(v.qdot);
  auto op=[&](const string&l,auto run,auto fq,auto fd,auto fdd){ JntArrayAcc A=a,D=fr?JntArrayAcc():saa("D",k); if(al) run(A,A); else run(A,D); eqc(l,al?A:D,el(k,fq),el(k,fd),el(k,fdd)); if(!al) eqc(l+" operand",A,q,d,z); };
  op("Add",[&](auto&A,auto&D){ Add(A,b,D); },[&](int i){return q[i]+r[i];},[&](int i){return d[i]+e[i];},[&](int i){return z[i]+y[i];}); op("Add vel",[&](auto&A,auto&D){ Add(A,v,D); },[&](int i){return q[i]+vq[i];},[&](int i){return d[i]+vd[i];},[&](int i){return z[i];}); op("Add array",[&](auto&A,auto&D){ Add(A,c,D); },[&](int i){return q[i]+g[i];},[&](int i){return d[i];},[&](int i){return z[i];});
  op("Subtract",[&](auto&A,auto&D){ Subtract(A,b,D); },[&](int i){return q[i]-r[i];},[&](int i){return d[i]-e[i];},[&](int i){return z[i]-y[i];}); op("Subtract vel",[&](auto&A,auto&D){ Subtract(A,v,D); },[&](int i){return q[i]-vq[i];},[&](int i){return d[i]-vd[i];},[&](int i){return z[i];}); op("Subtract array",[&](auto&A,auto&D){ Subtract(A,c,D); },[&](int i){return q[i]-g[i];},[&](int i){return d[i];},[&](int i){return z[i];});
  op("Multiply",[&](auto&A,auto&D){ Multiply(A,s,D); },[&](int i){return q[i]*s;},[&](int i){return d[i]*s;},[&](int i){return z[i]*s;}); op("Divide",[&](auto&A,auto&D){ Divide(A,s,D); },[&](int i){return q[i]/s;},[&](int i){return d[i]/s;},[&](int i){return z[i]/s;});
  auto quot=[&](double t,double t1,double t2,int i,int o){ double x0=q[i]/t,x1=(d[i]-x0*t1)/t,x2=(z[i]-2*x1*t1-x0*t2)/t; return o==0?x0:o==1?x1:x2; };
  op("Multiply dual",[&](auto&A,auto&D){ Multiply(A,f,D); },[&](int i){return q[i]*f.t;},[&](int i){return d[i]*f.t+q[i]*f.grad;},[&](int i){return z[i]*f.t+2*d[i]*f.grad;}); op("Multiply dual2",[&](auto&A,auto&D){ Multiply(A,h,D); },[&](int i){return q[i]*h.t;},[&](int i){return d[i]*h.t+q[i]*h.d;},[&](int i){return z[i]*h.t+2*d[i]*h.d+q[i]*h.dd;});
  op("Divide dual",[&](auto&A,auto&D){ Divide(A,f,D); },[&](int i){return quot(f.t,f.grad,0,i,0);},[&](int i){return quot(f.t,f.grad,0,i,1);},[&](int i){return quot(f.t,f.grad,0,i,2);}); op("Divide dual2",[&](auto&A,auto&D){ Divide(A,h,D); },[&](int i){return quot(h.t,h.d,h.dd,i,0);},[&](int i){return quot(h.t,h.d,h.dd,i,1);},[&](int i){return quot(h.t,h.d,h.dd,i,2);}); }
VX_CASE(va_misc){ int k=pick(),m=vx::choose("other",5); JntArray a=sa("a",k),b=sa("b",k),c=sa("c",k); auto x=vec(a),y=vec(b),z=vec(c); std::vector<double> o(k,0.0),om(m,0.0); auto cut=[&](const std::vector<double>&w){ return el(m,[&](int i){ return i<k?w[i]:0.0; }); };
  eqv("ctor2",JntArrayVel(a,b),x,y); eqv("ctor1",JntArrayVel(a),x,o); eqv("ctor size",JntArrayVel(m),om,om); JntArrayVel v(a,b); eqa("value",v.value(),x); eqa("deriv",v.deriv(),y); v.resize(m); eqv("resize",v,cut(x),cut(y)); SetToZero(v); eqv("zero",v,om,om);
  eqc("ctor3",JntArrayAcc(a,b,c),x,y,z); eqc("ctor2",JntArrayAcc(a,b),x,y,o); eqc("ctor1",JntArrayAcc(a),x,o,o); eqc("ctor size",JntArrayAcc(m),om,om,om); JntArrayAcc w(a,b,c); eqa("value",w.value(),x); eqa("deriv",w.deriv(),y); eqa("dderiv",w.dderiv(),z); w.resize(m); eqc("resize",w,cut(x),cut(y),cut(z)); SetToZero(w); eqc("zero",w,om,om,om); }
// -------- joint-space inertia matrices
static JntSpaceInertiaMatrix sm(const string&n,int k){ JntSpaceInertiaMatrix r(k); for(int i=0;i<k;i++) for(int j=0;j<k;j++) r(i,j)=vx::real(idx(n,i,j)); return r; }
template<class F> static void eqm(const string&l,const JntSpaceInertiaMatrix&M,int k,F f){ vx::check(l+" size",(int)M.rows()==k&&(int)M.columns()==k); if((int)M.rows()==k) for(int i=0;i<k;i++) for(int j=0;j<k;j++) eq(idx(l,i,j),M(i,j),f(i,j)); }
VX_CASE(matrix){ int k=pick(); int al=vx::choose("alias",3); bool fr=vx::flip("fresh"); JntSpaceInertiaMatrix a=sm("a",k),b=sm("b",k); double s=vx::real("s"); vx::assume_ne(s,0); JntArray v=sa("v",k);
  auto op=[&](const string&l,auto run,auto f){ JntSpaceInertiaMatrix A=a,B=b,D=fr?JntSpaceInertiaMatrix():sm("d",k); JntSpaceInertiaMatrix&R=al==0?D:al==1?A:B; run(A,B,R); eqm(l,R,k,f); };
  op("Add",[&](auto&A,auto&B,auto&D){ Add(A,B,D); },[&](int i,int j){return a(i,j)+b(i,j);}); op("Subtract",[&](auto&A,auto&B,auto&D){ Subtract(A,B,D); },[&](int i,int j){return a(i,j)-b(i,j);}); op("Multiply",[&](auto&A,auto&B,auto&D){ Multiply(A,s,D); },[&](int i,int j){return a(i,j)*s;}); op("Divide",[&](auto&A,auto&B,auto&D){ Divide(A,s,D); },[&](int i,int j){return a(i,j)/s;});
  JntArray r=sa("r",k); Multiply(a,v,r); eqa("matrix times vector",r,el(k,[&](int i){ double t=0; for(int j=0;j<k;j++) t=t+a(i,j)*v(j); return t; })); }
VX_CASE(matrix_misc){ int k=pick(),m=vx::choose("other",4); JntSpaceInertiaMatrix a=sm("a",k),c(a),d=sm("d",m); d=a; eqm("assign",d,k,[&](int i,int j){return a(i,j);}); eqm("copy",c,k,[&](int i,int j){return a(i,j);}); a=a; eqm("self",a,k,[&](int i,int j){return c(i,j);}); if(k){ d(0,k-1)=vx::real("x"); eqm("independent",a,k,[&](int i,int j){return c(i,j);}); } JntSpaceInertiaMatrix e=a; e.resize(m); vx::check("resized",(int)e.rows()==m&&(int)e.columns()==m); SetToZero(e); eqm("zero",e,m,[](int,int){return 0.0;}); eqm("ctor",JntSpaceInertiaMatrix(m),m,[](int,int){return 0.0;}); vx::check("equal to its copy",Equal(a,c)&&a==c); }
