// The Python interpreter inside the harness: binding code compiled through the symbolic executor, symbolic numbers travel
// through Python floats unchanged, and every result is compared with the C++ operation on the same operands.
#pragma once
#include "kx.h"
#include <PyKDL.h>
#include <pybind11/embed.h>
#include <pybind11/eval.h>
#include <framevel.hpp>
#include <framevel_io.hpp>
#include <frames_io.hpp>
#include <sstream>
namespace py=pybind11; using namespace KDL; using namespace kx;
namespace kx{
inline void start(){ static bool on=false; if(on) return; on=true; PyConfig c; PyConfig_InitIsolatedConfig(&c); c.site_import=0; c.write_bytecode=0; Py_InitializeFromConfig(&c); PyConfig_Clear(&c); }
struct Py{ int on=(start(),1); py::dict g; Py(){ g["__builtins__"]=py::module::import("builtins"); run("from PyKDL import *\nimport PyKDL,copy,pickle"); }
  void run(const string&s){ try{ py::exec(s,g); } catch(py::error_already_set&e){ vx::check("python \""+s+"\": "+e.what(),false); throw std::runtime_error("python"); } }
  template<class T> void set(const char*n,const T&v){ g[n]=py::cast(T(v)); }
  template<class T> T get(const string&s){ try{ return py::eval(s,g).cast<T>(); } catch(py::error_already_set&e){ vx::check("python \""+s+"\": "+e.what(),false); } catch(py::cast_error&e){ vx::check("python \""+s+"\" has the wrong type",false); } throw std::runtime_error("python"); }
  string error(const string&s){ try{ py::exec(s,g); return ""; } catch(py::error_already_set&e){ string r=py::str(e.type().attr("__name__")); return r; } } };
inline void eq(const string&l,bool a,bool b,double=0){ vx::check(l,a==b); }
inline void eq(const string&l,int a,int b,double=0){ vx::check(l,a==b); }
inline void eq(const string&l,unsigned a,unsigned b,double=0){ vx::check(l,a==b); }
inline void eq(const string&l,const string&a,const string&b,double=0){ vx::check(l+": "+a+" / "+b,a==b); }
inline void eq(const string&l,const doubleVel&a,const doubleVel&b,double tol=1e-6){ eq(l+".t",a.t,b.t,tol); eq(l+".grad",a.grad,b.grad,tol); }
inline void eq(const string&l,const VectorVel&a,const VectorVel&b,double tol=1e-6){ eq(l+".p",a.p,b.p,tol); eq(l+".v",a.v,b.v,tol); }
inline void eq(const string&l,const RotationVel&a,const RotationVel&b,double tol=1e-6){ eq(l+".R",a.R,b.R,tol); eq(l+".w",a.w,b.w,tol); }
inline void eq(const string&l,const FrameVel&a,const FrameVel&b,double tol=1e-6){ eq(l+".M",a.M,b.M,tol); eq(l+".p",a.p,b.p,tol); }
inline void eq(const string&l,const TwistVel&a,const TwistVel&b,double tol=1e-6){ eq(l+".vel",a.vel,b.vel,tol); eq(l+".rot",a.rot,b.rot,tol); }
template<class T> string text(const T&v){ std::ostringstream o; o<<v; return o.str(); }
#define P(expr,ref) do{ auto r_=(ref); kx::eq(expr,p.get<decltype(r_)>(expr),r_); }while(0)
#define THROWS(code,kind) vx::check(string(code)+" raises " kind,p.error(code)==kind)
#define WORKS(code) vx::check(string(code)+" works",p.error(code)=="")
// copies are independent of the original and equal to it; mut changes the variable it names by {}
template<class T> void copies(Py&p,const char*n,const T&v,const char*mut){ for(string how:{"type(@)(@)","copy.copy(@)","copy.deepcopy(@)"}){ string h; for(char c:how) h+=c=='@'?string(n):string(1,c); p.run("c="+h); eq(h,p.get<T>("c"),v); string m; for(const char*q=mut;*q;q++) m+=*q=='@'?string("c"):string(1,*q); p.run(m); eq(h+" leaves the original alone",p.get<T>(n),v); p.run("c="+h); m.clear(); for(const char*q=mut;*q;q++) m+=*q=='@'?string(n):string(1,*q); p.run(m); eq(h+" is not changed through the original",p.get<T>("c"),v); p.set(n,v); } }
template<class T> void pickles(Py&p,const char*n,const T&v,double tol=1e-6){ int k=vx::choose("pickle protocol",3); p.run("c=pickle.loads(pickle.dumps("+string(n)+",protocol="+std::to_string(k+2)+"))"); eq(string("pickled ")+n,p.get<T>("c"),v,tol); p.run("c=type("+string(n)+").__new__(type("+string(n)+"))"); vx::check("bad pickle state refused",p.error("c.__setstate__(())")!=""); }
template<class T> void shown(Py&p,const char*n,const T&v){ eq(string("repr of ")+n,p.get<string>(string("repr(")+n+")"),text(v)); }
}
