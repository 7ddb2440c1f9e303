// SRC: utilities/utility frames
// BOUNDS: all real values and derivatives in the domain of each function; pow exponents 2,3,-1,-2,0.5,1.5 and symbolic; duals over double and one nesting level (dual of duals) for products and quotients
#include "mot.h"
#include <utilities/rall1d.h>
#include <utilities/rall2d.h>
using namespace KDL; using namespace kx;
typedef Rall1d<double> R1; typedef Rall2d<double> R2;
struct H:Mot{
  template<class T> T mk(const string&n,double lo=0,double hi=0);
  void ck(const string&l,const R1&r,double v){ eq(l+" value",r.t,v); eq(l+" derivative",r.grad,D(v),1e-4); }
  void ck(const string&l,const R2&r,double v){ eq(l+" value",r.t,v); eq(l+" 1st derivative",r.d,D(v),1e-4); eq(l+" 2nd derivative",r.dd,D(r.d),1e-4); }
};
template<> R1 H::mk<R1>(const string&n,double lo,double hi){ Q a=var1(n); return R1(a.q,a.d); }
template<> R2 H::mk<R2>(const string&n,double lo,double hi){ Q a=var(n); return R2(a.q,a.d,a.dd); }
template<class T> static void arith(){ H h; T a=h.mk<T>("a"),b=h.mk<T>("b"); double x=a.t,y=b.t,s=vx::real("s"); vx::assume_ne(y,0); vx::assume_ne(s,0);
  h.ck("a+b",a+b,x+y); h.ck("a-b",a-b,x-y); h.ck("a*b",a*b,x*y); h.ck("a/b",a/b,x/y); h.ck("-a",-a,-x); h.ck("s+a",s+a,s+x); h.ck("a+s",a+s,x+s); h.ck("s-a",s-a,s-x); h.ck("a-s",a-s,x-s); h.ck("s*a",s*a,s*x); h.ck("a*s",a*s,x*s); h.ck("a/s",a/s,x/s); h.ck("s/b",s/b,s/y);
  T c=a; c+=b; h.ck("+=",c,x+y); c=a; c-=b; h.ck("-=",c,x-y); c=a; c*=b; h.ck("*=",c,x*y); c=a; c/=b; h.ck("/=",c,x/y); c=a; c+=s; h.ck("+=s",c,x+s); c=a; c-=s; h.ck("-=s",c,x-s); c=a; c*=s; h.ck("*=s",c,x*s); c=a; c/=s; h.ck("/=s",c,x/s);
  c=a; c+=c; h.ck("self+=",c,x+x); c=a; c-=c; h.ck("self-=",c,0.0*x); c=a; c*=c; h.ck("self*=",c,x*x); c=b; c/=c; h.ck("self/=",c,1.0); c=s; h.ck("=s",c,s); h.ck("ctor(s)",T(s),s); h.ck("Zero",T::Zero(),0.0); h.ck("Identity",T::Identity(),1.0); h.ck("default",T(),0.0); T d(a); h.ck("copy",d,x); c=b; c=a; h.ck("assign",c,x); c=a; h.ck("chain",(c*=b)-=a,x*y-x); c=a; SetToZero(c); h.ck("SetToZero",c,0.0); c=a; SetToIdentity(c); h.ck("SetToIdentity",c,1.0);
  double al=vx::real("alfa"),be=vx::real("beta"); h.ck("LinComb",LinComb(al,a,be,b),al*x+be*y); LinCombR(al,a,be,b,c); h.ck("LinCombR",c,al*x+be*y); c=a; LinCombR(al,c,be,b,c); h.ck("LinCombR aliased",c,al*x+be*y); }
VX_CASE(arith1){ arith<R1>(); } VX_CASE(arith2){ arith<R2>(); }
template<class T> static void smooth(){ H h; T a=h.mk<T>("a"),b=h.mk<T>("b"); double x=a.t,y=b.t;
  h.ck("exp",exp(a),std::exp(x)); h.ck("sin",sin(a),std::sin(x)); h.ck("cos",cos(a),std::cos(x)); h.ck("sinh",sinh(a),std::sinh(x)); h.ck("cosh",cosh(a),std::cosh(x)); h.ck("tanh",tanh(a),std::tanh(x)); h.ck("sqr",sqr(a),x*x); h.ck("exp(sin)",exp(sin(a)*b),std::exp(std::sin(x)*y)); }
VX_CASE(smooth1){ smooth<R1>(); } VX_CASE(smooth2){ smooth<R2>(); }
template<class T> static void positive(){ H h; T a=h.mk<T>("a"); double x=a.t; vx::assume_lt(1e-3,x); h.ck("log",log(a),std::log(x)); h.ck("sqrt",sqrt(a),std::sqrt(x)); h.ck("sqrt(log)",sqrt(a*a+a),std::sqrt(x*x+x)); double ms[]={2,3,-1,-2,0.5,1.5}; int k=vx::choose("m",6); h.ck("pow",pow(a,ms[k]),std::pow(x,ms[k])); eq("Norm",Norm(a),x); h.ck("abs",abs(a),x); h.ck("abs-",abs(-a),x); }
VX_CASE(positive1){ positive<R1>(); } VX_CASE(positive2){ positive<R2>(); }
template<class T> static void powsym(){ H h; T a=h.mk<T>("a"); double x=a.t,m=vx::real("m"); vx::assume_lt(1e-3,x); h.ck("pow",pow(a,m),std::pow(x,m)); }
VX_CASE(powsym1){ powsym<R1>(); } VX_CASE(powsym2){ powsym<R2>(); }
template<class T> static void negpow(){ H h; T a=h.mk<T>("a"); double x=a.t; vx::assume_lt(x,-1e-3); double ms[]={2,3,-1,-2}; int k=vx::choose("m",4); h.ck("pow",pow(a,ms[k]),std::pow(x,ms[k])); h.ck("abs",abs(a),-x); }
VX_CASE(negpow1){ negpow<R1>(); } VX_CASE(negpow2){ negpow<R2>(); }
template<class T> static void tang(){ H h; T a=h.mk<T>("a"); double x=a.t; vx::assume_ne(std::cos(x),0); h.ck("tan",tan(a),std::tan(x)); }
VX_CASE(tan1){ tang<R1>(); } VX_CASE(tan2){ tang<R2>(); }
template<class T> static void arc(){ H h; T a=h.mk<T>("a"); double x=a.t; vx::assume_ne(x,0); h.ck("atan",atan(a),std::atan(x)); vx::assume_lt(x*x,0.999); h.ck("asin",asin(a),std::asin(x)); h.ck("acos",acos(a),std::acos(x)); }
VX_CASE(arc1){ arc<R1>(); } VX_CASE(arc2){ arc<R2>(); }
template<class T> static void two(){ H h; T a=h.mk<T>("a"),b=h.mk<T>("b"); double x=a.t,y=b.t; vx::assume_lt(1e-3,x*x+y*y); h.ck("hypot",hypot(a,b),std::sqrt(x*x+y*y)); vx::assume_ne(x,0); h.ck("atan2",atan2(a,b),std::atan2(x,y)); }
VX_CASE(two1){ two<R1>(); } VX_CASE(two2){ two<R2>(); }
// the inverse functions at a zero argument (expected derivatives written out)
VX_CASE(arc_zero1){ double d=vx::real("d"); R1 a(0,d); eq("atan",atan(a).t,0); eq("atan'",atan(a).grad,d); eq("asin",asin(a).t,0); eq("asin'",asin(a).grad,d); eq("acos'",acos(a).grad,-d); double y=vx::real("y"),dy=vx::real("dy"); vx::assume_ne(y,0); R1 r=atan2(a,R1(y,dy)); eq("atan2'",r.grad*y,d); eq("sin atan2",std::sin(r.t),0); vx::check("side",std::cos(r.t)*y>0); }
VX_CASE(arc_zero2){ double d=vx::real("d"),dd=vx::real("dd"); R2 a(0,d,dd); eq("atan'",atan(a).d,d); eq("atan''",atan(a).dd,dd); eq("asin'",asin(a).d,d); eq("asin''",asin(a).dd,dd); eq("acos'",acos(a).d,-d); eq("acos''",acos(a).dd,-dd); double y=vx::real("y"),dy=vx::real("dy"),ddy=vx::real("ddy"); vx::assume_ne(y,0); R2 r=atan2(a,R2(y,dy,ddy)); eq("atan2'",r.d*y,d); eq("atan2''",r.dd*y*y,dd*y-2*d*dy); }
// dual of duals: value and derivative parts are themselves duals
VX_CASE(nested){ H h; typedef Rall1d<R1,R1,double> N; R1 at=h.mk<R1>("at"),ag=h.mk<R1>("ag"),bt=h.mk<R1>("bt"),bg=h.mk<R1>("bg"); vx::assume_ne(bt.t,0); N a(at,ag),b(bt,bg);
  N c=a*b; h.ck("* t",c.t,at.t*bt.t); h.ck("* grad",c.grad,at.t*bg.t+ag.t*bt.t); c=a/b; h.ck("/ t",c.t,at.t/bt.t); h.ck("/ grad",c.grad,(ag.t*bt.t-at.t*bg.t)/(bt.t*bt.t)); c=a+b; h.ck("+ grad",c.grad,ag.t+bg.t); c=sin(a); h.ck("sin grad",c.grad,std::cos(at.t)*ag.t); c=exp(a); h.ck("exp grad",c.grad,std::exp(at.t)*ag.t); }
// a gradient with several components
VX_CASE(vector_gradient){ H h; typedef Rall1d<double,Vector,double> N; H::MV g=h.vec1("g"),k=h.vec1("k"); double x=vx::real("x"),y=vx::real("y"); vx::assume_ne(y,0); N p(x,kv(g.p)),q(y,kv(k.p)); N c=p*q; for(int i=0;i<3;i++){ eq(idx("* ",i),c.grad(i),x*k.p[i]+y*g.p[i]); } c=p/q; for(int i=0;i<3;i++) eq(idx("/ ",i),c.grad(i),(g.p[i]*y-x*k.p[i])/(y*y)); c=p-q; for(int i=0;i<3;i++) eq(idx("- ",i),c.grad(i),g.p[i]-k.p[i]); c=sin(p); for(int i=0;i<3;i++) eq(idx("sin ",i),c.grad(i),std::cos(x)*g.p[i]); c=sqrt(sqr(q)+1.0); for(int i=0;i<3;i++) eq(idx("sqrt ",i),c.grad(i)*std::sqrt(y*y+1),y*k.p[i]); }
template<class T> static void cmp(){ H h; T a=h.mk<T>("a"); T b=a; vx::check("equal to itself",a==b); vx::check("not unequal",!(a!=b)); vx::check("Equal",Equal(a,b)); }
VX_CASE(compare1){ cmp<R1>(); H h; R1 a=h.mk<R1>("a"),b=h.mk<R1>("b"); double e=vx::real("e"); vx::assume_lt(1e-3,e); auto n=[&](double u,double v){ double d=u-v; return d<e&&-d<e; }; vx::check("Equal",Equal(a,b,e)==(n(a.t,b.t)&&n(a.grad,b.grad))); }
VX_CASE(compare2){ cmp<R2>(); H h; R2 a=h.mk<R2>("a"),b=h.mk<R2>("b"); double e=vx::real("e"); vx::assume_lt(1e-3,e); auto n=[&](double u,double v){ double d=u-v; return d<e&&-d<e; }; vx::check("Equal",Equal(a,b,e)==(n(a.t,b.t)&&n(a.d,b.d)&&n(a.dd,b.dd))); }
