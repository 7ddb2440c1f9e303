// EXTRA: textcheck
// SRC: frames frames_io utilities/utility utilities/utility_io utilities/error_stack path path_line path_circle path_point path_composite path_cyclic_closed path_roundedcomposite velocityprofile velocityprofile_rect velocityprofile_dirac velocityprofile_trap velocityprofile_traphalf trajectory trajectory_segment rotational_interpolation rotational_interpolation_sa
// BOUNDS: every number symbolic (number formatting of the C++ library assumed exact at full precision); texts: all strings of up to 5 characters over 13 characters, all single edits of the valid texts of every type with 16 tokens, all double edits for vectors, planar values and DH, keywords of 1 to 30 characters; buffers of 1 to 12 characters; every path class with symbolic geometry, orientations equal or turned about one axis
#include "kx.h"
#include <frames_io.hpp>
#include <utilities/utility_io.h>
#include <utilities/error.h>
#include <utilities/error_stack.h>
#include <path.hpp>
#include <path_line.hpp>
#include <path_circle.hpp>
#include <path_point.hpp>
#include <path_composite.hpp>
#include <path_cyclic_closed.hpp>
#include <path_roundedcomposite.hpp>
#include <velocityprofile_trap.hpp>
#include <velocityprofile_traphalf.hpp>
#include <velocityprofile_rect.hpp>
#include <velocityprofile_dirac.hpp>
#include <trajectory_segment.hpp>
#include <rotational_interpolation_sa.hpp>
#include <sstream>
#include <cstring>
#include <memory>
using namespace KDL; using namespace kx; using std::vector;
namespace kx{ static void eq(const string&l,const Vector2&a,const Vector2&b,double=0){ eq(l+".x",a(0),b(0)); eq(l+".y",a(1),b(1)); } }
static double pos(const string&n,double lo=0.1,double hi=5){ double x=vx::real_s(n,lo,hi); vx::assume_lt(0,x); return x; }
static void notrace(const string&l){ char b[80]; IOTracePopStr(b,80); vx::check(l+": no trace left behind ("+b+")",b[0]==0); }
static void cleartrace(){ std::ostringstream o; IOTraceOutput(o); }
static const char*const PRE[]={""," ","\n\t ","/* note */","# note\n","// a\n/**/ ","/* a *//* b **/"};
// ---- values read back unchanged -----------------------------------------------------------------------------------------
template<class T> static string text(const T&v){ std::ostringstream o; o.precision(17); o<<v; return o.str(); }
template<class T> static void twice(const T&a,const T&b,T r1,T r2){ string t=string(PRE[vx::choose("leading",7)])+text(a)+PRE[vx::choose("between",7)]+text(b)+" 42"; std::istringstream is(t); is>>r1>>r2; vx::check("stream usable after reading",is.good()); eq("first",r1,a); eq("second",r2,b); int k=0; is>>k; vx::check("following text untouched",k==42); notrace("value"); vx::reach("end"); }
VX_CASE(vector){ twice(svec("a"),svec("b"),svec("c"),svec("d")); }
VX_CASE(twist){ twice(stwist("a"),stwist("b"),stwist("c"),stwist("d")); }
VX_CASE(wrench){ twice(swrench("a"),swrench("b"),swrench("c"),swrench("d")); }
VX_CASE(rotation){ twice(skmat("a"),skrot("b"),skmat("c"),skmat("d")); }
VX_CASE(frame){ twice(sframe_free("a"),sframe("b"),sframe_free("c"),sframe_free("d")); }
VX_CASE(vector2){ twice(Vector2(vx::real("ax"),vx::real("ay")),Vector2(vx::real("bx"),vx::real("by")),Vector2(vx::real("cx"),1),Vector2()); }
static void eqr(const string&l,const Rotation2&a,const Rotation2&b){ double x,y; Vector2 p=a*Vector2(1,0),q=b*Vector2(1,0); eq(l,p,q); p=a*Vector2(0,1); q=b*Vector2(0,1); eq(l,p,q); }
VX_CASE(rotation2_text){ double x=vx::real("degrees"); std::ostringstream o; o.precision(17); o<<PRE[vx::choose("leading",7)]<<"["<<x<<"] 42"; std::istringstream is(o.str()); Rotation2 r(vx::real("before")); is>>r; eqr("rotation",r,Rotation2(x*deg2rad)); int k=0; is>>k; vx::check("rest",k==42); notrace("rotation2"); vx::reach("end"); }
VX_CASE(rotation2){ Rotation2 a(vx::real("a")),r(vx::real("c")); std::stringstream s; s.precision(17); s<<a; s>>r; eqr("rotation",r,a); notrace("rotation2"); vx::reach("end"); }
VX_CASE(frame2){ Frame2 a(Rotation2(vx::real("a")),Vector2(vx::real("x"),vx::real("y"))),r; std::stringstream s; s.precision(17); s<<a; s>>r; eqr("rotation",r.M,a.M); eq("position",r.p,a.p); notrace("frame2"); vx::reach("end"); }
// ---- keyword forms -------------------------------------------------------------------------------------------------------
static string cased(string w){ int k=vx::choose("case",3); for(size_t i=0;i<w.size();i++) if(k==1||(k==2&&i%2)) w[i]=(char)tolower(w[i]); return w; }
static std::ostringstream& num(std::ostringstream&o){ o.precision(17); return o; }
static const char*const GAP[]={""," ","\n/*x*/"};
template<class F> static void euler(const char*w,F ref){ double x=vx::real("x"),y=vx::real("y"),z=vx::real("z"); std::ostringstream o; int g=vx::choose("gap",3); num(o)<<PRE[vx::choose("leading",7)]<<cased(w)<<GAP[g]<<"["<<x<<GAP[g]<<","<<y<<","<<GAP[g]<<z<<GAP[g]<<"] 42"; std::istringstream is(o.str()); Rotation R=skmat("before"); is>>R; eq("rotation",R,ref(x*deg2rad,y*deg2rad,z*deg2rad)); int k=0; is>>k; vx::check("rest",k==42); notrace(w); vx::reach("end"); }
VX_CASE(rpy){ euler("RPY",[](double r,double p,double y){ return mul(rotz(y),mul(roty(p),rotx(r))); }); }
VX_CASE(eulerzyx){ euler("EULERZYX",[](double a,double b,double c){ return mul(rotz(a),mul(roty(b),rotx(c))); }); }
VX_CASE(eulerzyz){ euler("EULERZYZ",[](double a,double b,double c){ return mul(rotz(a),mul(roty(b),rotz(c))); }); }
VX_CASE(rot){ double x=vx::real("angle"); int ax=vx::choose("axis",4); V3 a=ax==3?sunit("axis"):v3(ax==0,ax==1,ax==2); std::ostringstream o; int g=vx::choose("gap",3); num(o)<<cased("ROT")<<GAP[g]<<"["<<a[0]<<","<<a[1]<<","<<a[2]<<"]"<<GAP[g]<<"["<<x<<"] 42"; std::istringstream is(o.str()); Rotation R=skmat("before"); is>>R; eq("rotation",R,axang(a,x*deg2rad)); int k=0; is>>k; vx::check("rest",k==42); notrace("ROT"); vx::reach("end"); }
static const char*const TAIL[]={""," ","\n","/**/","[ 1","] 1"};
VX_CASE(identity){ std::istringstream is(string(PRE[vx::choose("leading",7)])+cased("IDENTITY")+TAIL[vx::choose("tail",6)]); Rotation R=skmat("before"); is>>R; eq("identity",R,eye()); vx::check("no failure",!is.fail()); notrace("IDENTITY"); vx::reach("end"); }
VX_CASE(zero){ std::istringstream is(string(PRE[vx::choose("leading",7)])+cased("ZERO")+TAIL[vx::choose("tail",6)]); Vector v=svec("before"); is>>v; eq("zero",v,v3(0,0,0)); vx::check("no failure",!is.fail()); notrace("ZERO"); vx::reach("end"); }
VX_CASE(dh){ double a=vx::real("a"),al=vx::real("alpha"),d=vx::real("d"),th=vx::real("theta"); std::ostringstream o; int g=vx::choose("gap",3); num(o)<<cased("DH")<<GAP[g]<<"["<<a<<","<<GAP[g]<<al<<","<<d<<GAP[g]<<","<<th<<"] 42"; std::istringstream is(o.str()); Frame T=sframe_free("before"); is>>T; M3 R=mul(rotz(th*deg2rad),rotx(al*deg2rad)); eq("DH rotation",T.M,R); eq("DH position",T.p,v3(a*cos(th*deg2rad),a*sin(th*deg2rad),d)); int k=0; is>>k; vx::check("rest",k==42); notrace("DH"); vx::reach("end"); }
VX_CASE(frame_of_keywords){ double x=vx::real("x"); std::ostringstream o; num(o)<<"["<<cased("RPY")<<"["<<x<<",0,0] "<<cased("ZERO")<<"] ["<<cased("IDENTITY")<<" [1,2,"<<x<<"]]"; std::istringstream is(o.str()); Frame A=sframe_free("before"),B=A; is>>A>>B; eq("first",A,Frame(kr(rotx(x*deg2rad)))); eq("second",B,Frame(kv(v3(1,2,x)))); notrace("frame"); vx::reach("end"); }
// ---- malformed texts: an independent reader decides what is well formed ------------------------------------------------------
struct Ref{ const string&t; size_t p=0; bool ok=true; vector<double> v; Ref(const string&s):t(s){}
  int at(size_t i)const{ return i<t.size()?(unsigned char)t[i]:-1; }
  bool ws(){ bool any=false; while(ok){ int c=at(p); if(c==' '||c=='\n'||c=='\t') p++; else if(c=='#'||(c=='/'&&at(p+1)=='/')){ size_t e=t.find('\n',p); if(e==string::npos) ok=false; else p=e+1; } else if(c=='/'&&at(p+1)=='*'){ size_t e=t.find("*/",p+2); if(e==string::npos) ok=false; else p=e+2; } else break; any=true; } return any; }
  void ch(int c){ ws(); if(at(p)!=c) ok=false; else p++; if(!ok) p=t.size(); }
  string word(const char*delim,size_t max){ ws(); string w; while(ok&&at(p)!=-1&&!strchr(delim,at(p))){ w+=(char)toupper(at(p)); p++; if(w.size()>max) ok=false; size_t q=p; if(ws()){ (void)q; break; } } return w; }
  void num(){ if(!ok) return; ws(); while(at(p)==' '||at(p)=='\n'||at(p)=='\t') p++; double s=1,x=0,f=1; int nd=0; if(at(p)=='-'||at(p)=='+'){ if(at(p)=='-') s=-1; p++; } bool dot=false; for(;;p++){ int c=at(p); if(c>='0'&&c<='9'){ nd++; if(dot){ f*=10; x=x*10+(c-'0'); } else x=x*10+(c-'0'); } else if(c=='.'&&!dot) dot=true; else break; } if(!nd) ok=false; v.push_back(s*x/f); }
  void list(int n,const char*sep){ ch('['); for(int i=0;i<n&&ok;i++){ num(); ch(i==n-1?']':sep[i]); } }
  void vec(){ string w=word("[]",9); if(!ok) return; if(w.empty()) list(3,",,"); else if(w=="ZERO"){ v.push_back(0); v.push_back(0); v.push_back(0); } else ok=false; }
  void rot(){ string w=word("[]",9); if(!ok) return; if(w.empty()) list(9,",,;,,;,,"); else if(w=="IDENTITY"){ for(int i=0;i<9;i++) v.push_back(i%4==0); } else ok=false; }
  void frame(){ string w=word("[",9); if(!ok) return; if(w.empty()){ ch('['); if(ok) rot(); if(ok) vec(); ch(']'); } else ok=false; } };
enum{ TV,TTw,TW,TR,TF,TV2,TR2,TDH,NT };
static const char*const NM[]={"Vector","Twist","Wrench","Rotation","Frame","Vector2","Rotation2","DH"};
// 1 accepted with the same value, 0 refused with a library error, -1 anything else
static int real_read(int ty,const string&t,vector<double>&v,bool&fail){ std::istringstream is(t); try{ switch(ty){
  case TV:{ Vector x(9,9,9); is>>x; for(int i=0;i<3;i++) v.push_back(x(i)); } break;
  case TTw:{ Twist x; is>>x; for(int i=0;i<6;i++) v.push_back(x(i)); } break;
  case TW:{ Wrench x; is>>x; for(int i=0;i<6;i++) v.push_back(x(i)); } break;
  case TR:{ Rotation x; is>>x; for(int i=0;i<9;i++) v.push_back(x.data[i]); } break;
  case TF:{ Frame x; is>>x; for(int i=0;i<9;i++) v.push_back(x.M.data[i]); for(int i=0;i<3;i++) v.push_back(x.p(i)); } break;
  case TV2:{ Vector2 x; is>>x; v.push_back(x(0)); v.push_back(x(1)); } break;
  case TR2:{ Rotation2 x; is>>x; v.push_back(1); } break;
  case TDH:{ Frame x; is>>x; v.push_back(1); } break; } fail=is.fail(); notrace(NM[ty]); return 1; }
  catch(Error&e){ cleartrace(); const char*d=e.Description(); return d&&d[0]?0:-1; } catch(...){ cleartrace(); return -1; } }
static void ref_read(int ty,Ref&r){ switch(ty){ case TV: r.vec(); break; case TTw: case TW: r.list(6,",,,,,"); break; case TR: r.rot(); break; case TF: r.frame(); break; case TV2: r.list(2,","); break; case TR2: r.list(1,""); break; case TDH:{ string w=r.word("[",9); if(r.ok&&w=="DH") r.list(4,",,,"); else r.ok=false; } break; } }
static long NTEXT;
static void one(int ty,const string&t){ Ref r(t); ref_read(ty,r); vector<double> v; bool fail=false; int k=real_read(ty,t,v,fail); NTEXT++; string show; for(char c:t) show+=c=='\n'?string("\\n"):string(1,c);
  if(k!=(r.ok?1:0)){ vx::check(string(NM[ty])+" text \""+show+"\" "+(r.ok?"is well formed but was refused":k==1?"is malformed but was accepted":"did not raise a library error"),false); return; }
  if(k==1&&fail) vx::check(string(NM[ty])+" text \""+show+"\" left the stream failed",false);
  if(k==1&&ty!=TR2&&ty!=TDH) for(size_t i=0;i<v.size();i++) if(!(v[i]==r.v[i])) vx::check(string(NM[ty])+" text \""+show+"\" was read as another value",false); }
static const char*const ALPH[]={"[","]",",",";","7","-",".","Z"," ","\n","/**/","//\n","#\n","/","*","0"};
static void edits(int ty,const vector<string>&toks,int k){ string t; for(auto&s:toks) t+=s; one(ty,t); for(size_t c=0;c<t.size();c++) one(ty,t.substr(0,c)); if(k==0) return; for(size_t p=0;p<=toks.size();p++){ for(auto a:ALPH){ auto u=toks; u.insert(u.begin()+p,a); if(k==1){ string s; for(auto&x:u) s+=x; one(ty,s); } else edits(ty,u,k-1); if(p<toks.size()){ u=toks; u[p]=a; if(k==1){ string s; for(auto&x:u) s+=x; one(ty,s); } else edits(ty,u,k-1); } } if(p<toks.size()){ auto u=toks; u.erase(u.begin()+p); edits(ty,u,k-1); } } }
static vector<string> toks(const char*s){ vector<string> r; for(;*s;s++) r.push_back(string(1,*s)); return r; }
static void done(){ vx::check("texts were tried",NTEXT>0); NTEXT=0; vx::reach("end"); }
VX_CASE(edits_vector){ edits(TV,toks("[7,8,9]"),2); done(); }
VX_CASE(edits_twist){ edits(TTw,toks("[1,2,3,4,5,6]"),1); done(); }
VX_CASE(edits_wrench){ edits(TW,toks("[1,2,3,4,5,6]"),1); done(); }
VX_CASE(edits_rotation){ edits(TR,toks("[1,2,3;4,5,6;7,8,9]"),1); done(); }
VX_CASE(edits_frame){ edits(TF,toks("[[1,2,3;4,5,6;7,8,9][1,2,3]]"),1); done(); }
VX_CASE(edits_planar){ edits(TV2,toks("[7,8]"),2); edits(TR2,toks("[78]"),2); done(); }
VX_CASE(edits_dh){ auto u=toks("[1,2,3,4]"); u.insert(u.begin(),"DH"); edits(TDH,u,1); done(); }
static void all(int ty,int n){ static const char A[]="[],;7-. \n/*#Z"; int m=sizeof(A)-1; string s; std::function<void()> go=[&](){ one(ty,s); if((int)s.size()==n) return; for(int i=0;i<m;i++){ s+=A[i]; go(); s.pop_back(); } }; go(); }
VX_CASE(short_planar){ all(TR2,4); all(TV2,4); done(); }
VX_CASE(short_vector){ all(TV,4); done(); }
VX_CASE_THOROUGH(short_all){ for(int t=0;t<NT;t++) all(t,5); done(); }
VX_CASE(words){ static const char*const FILL[]={"A","z","*","9",",","\xe9"}; static const char*const END[]={"","["," ","]","/**/","\n[1,2,3]"}; for(int ty=0;ty<NT;ty++) for(auto f:FILL) for(auto e:END) for(int n=1;n<=30;n++){ string w; for(int i=0;i<n;i++) w+=f; one(ty,w+e); } for(auto w:{"ZERO","IDENTITY","DH"}) for(auto e:END){ string s(w); for(int ty:{(int)TV,(int)TR}){ one(ty,s+e); one(ty,s+"x"+e); one(ty,s.substr(1)+e); one(ty,s.substr(0,s.size()-1)+e); } } done(); }
// ---- the tokenizer itself ------------------------------------------------------------------------------------------------------
VX_CASE(eatword){ static const char*const END[]={"","["," x","]","/*c*/[","\n","#c\n/*d*/x"}; for(int cap=1;cap<=12;cap++) for(int n=0;n<=14;n++) for(auto e:END) for(auto lead:PRE){ string w; for(int i=0;i<n;i++) w+=(char)('a'+i); if(n==0&&(e[0]==0||e[0]==' '||e[0]=='\n'||e[0]=='/'||e[0]=='#')) continue; std::istringstream is(lead+w+e); std::unique_ptr<char[]> b(new char[cap]); bool thrown=false; try{ EatWord(is,"[]",b.get(),cap); } catch(Error&){ thrown=true; } string id="word of "+std::to_string(n)+" into "+std::to_string(cap); vx::check(id+(n<cap?" fits":" is refused"),thrown==(n>=cap)); if(!thrown){ string up; for(char c:w) up+=(char)toupper(c); vx::check(id+" text",up==b.get()); if(e[0]){ int c=is.get(); vx::check(id+" next",c==((e[0]==' '||e[0]=='#')?'x':e[0]=='/'?'[':e[0]=='\n'?-1:e[0])); } } } vx::reach("end"); }
VX_CASE(eat_description){ struct{ const char*d; const char*t; int ok; int next; } T[]={ {"abc","ABCx",1,'x'},{"ABC"," \n aBcx",1,'x'},{"abc","abd",0,0},{"abc","ab",0,0},{"a b","A  B;",1,';'},{"a b","a/*c*/b;",1,';'},{"a b","a#c\nb;",1,';'},{"a b","a//c\n/**/ b;",1,';'},{"a b","ab;",0,0},{"a b","a c",0,0},{"a ","a x",1,'x'},{"","x",1,'x'},{"a/b","a/b;",1,';'},{"a","/**//**/a;",1,';'} }; for(auto&c:T){ std::istringstream is(c.t); int k=1; try{ Eat(is,c.d); } catch(Error&){ k=0; } catch(...){ k=-1; } vx::check(string("description \"")+c.d+"\" on \""+c.t+"\"",k==c.ok); if(k==1&&c.ok) vx::check(string("description \"")+c.d+"\" rest",is.get()==c.next); } vx::reach("end"); }
VX_CASE(trace_and_errors){ IOTrace("outer"); IOTrace("inner text"); char b[6]={1,1,1,1,1,1}; IOTracePopStr(b,6); vx::check("cut to the buffer",string(b)=="inner"); IOTracePopStr(b,0); IOTracePopStr(b,6); vx::check("second",string(b)=="outer"); IOTracePopStr(b,6); vx::check("empty",b[0]==0); IOTrace("x"); IOTracePop(); IOTracePopStr(b,6); vx::check("popped",b[0]==0); IOTrace("a"); IOTrace("b"); std::ostringstream o; IOTraceOutput(o); vx::check("printed innermost first",o.str()=="b\na\n"); Error_IO e("text",17); vx::check("type",e.GetType()==17); vx::check("text",string(e.Description())=="text"); vx::reach("end"); }
// ---- profiles and paths ----------------------------------------------------------------------------------------------------------
template<class T,class R> static R* reread(const T&t,R*(*read)(std::istream&)){ std::ostringstream o; o.precision(17); const_cast<T&>(t).Write(o); std::istringstream is(string(PRE[vx::choose("leading",7)])+o.str()+" ;"); R*r=read(is); int c=0; { char ch=0; is>>ch; c=ch; } vx::check("read up to its end",c==';'); vx::check("same kind",typeid(*r)==typeid(t)); notrace("object"); return r; }
static void sameprof(VelocityProfile&p,bool acc,bool dirac=false){ std::unique_ptr<VelocityProfile> q(reread(p,VelocityProfile::Read)); double a=vx::real("a"),b=vx::real("b"),t=vx::real_s("t",-1,6); vx::assume_ne(a,b); p.SetProfile(a,b); q->SetProfile(a,b); eq("duration",q->Duration(),p.Duration()); eq("position",q->Pos(t),p.Pos(t)); if(!dirac) eq("velocity",q->Vel(t),p.Vel(t)); if(acc) eq("acceleration",q->Acc(t),p.Acc(t)); vx::reach("end"); }
VX_CASE(profile_trap){ VelocityProfile_Trap p(pos("V"),pos("A")); sameprof(p,true); }
VX_CASE(profile_traphalf){ VelocityProfile_TrapHalf p(pos("V"),pos("A"),vx::flip("starting")); sameprof(p,true); }
VX_CASE(profile_rect){ VelocityProfile_Rectangular p(pos("V")); sameprof(p,false); }
VX_CASE(profile_dirac){ VelocityProfile_Dirac p; sameprof(p,false,true); }
static void samepath(Path&p,bool dd=true){ std::unique_ptr<Path> q(reread(p,Path::Read)); double L=p.PathLength(); eq("length",q->PathLength(),L); double s=vx::real_s("s",0.1,0.9); vx::assume_le(0,s); vx::assume_le(s,L); double sd=vx::real("sd"),sdd=vx::real("sdd"); eq("pose",q->Pos(s),p.Pos(s),1e-5); eq("velocity",q->Vel(s,sd),p.Vel(s,sd),1e-5); if(dd) eq("acceleration",q->Acc(s,sd,sdd),p.Acc(s,sd,sdd),1e-4); vx::reach("end"); }
VX_CASE(path_point){ Path_Point p(sframe("f")); std::unique_ptr<Path> q(reread(p,Path::Read)); eq("pose",q->Pos(0),p.Pos(0)); vx::reach("end"); }
VX_CASE(path_line){ V3 a=sv("a"),d=v3(vx::real("dx"),0,0); vx::assume_lt(1e-3,d[0]); M3 R=rotx(vx::real("o")); Path_Line p(Frame(kr(R),kv(a)),Frame(kr(R),kv(a+d)),new RotationalInterpolation_SingleAxis,pos("eqradius")); samepath(p); }
VX_CASE(path_line_turn){ Frame A(kv(sv("a"))); double al=vx::range("alpha",0.1,3); Path_Line p(A,Frame(kr(rotz(al)),A.p),new RotationalInterpolation_SingleAxis,pos("eqradius")); samepath(p); }
static Path* circ(double R,V3 c){ int pl=vx::choose("plane",2); M3 B=eye(); if(pl){ B=rotx(vx::real("plane angle")); } V3 x=mul(B,v3(1,0,0)),y=mul(B,v3(0,1,0)); return new Path_Circle(Frame(kv(c+R*x)),kv(c),kv(c+y),Rotation::Identity(),vx::range("sweep",0.1,6),new RotationalInterpolation_SingleAxis,pos("eqradius")); }
VX_CASE(path_circle){ double R=pos("radius"); vx::assume_lt(1e-3,R); std::unique_ptr<Path> p(circ(R,sv("c"))); samepath(*p); }
static Path_Line* lin(V3 a,double dx,double dy){ return new Path_Line(Frame(kv(a)),Frame(kv(a+v3(dx,dy,0))),new RotationalInterpolation_SingleAxis,1.0); }
VX_CASE(path_composite){ V3 a=sv("a"); double x=pos("x"),y=pos("y"); vx::assume_lt(1e-3,x); vx::assume_lt(1e-3,y); Path_Composite p; p.Add(lin(a,x,0)); if(vx::flip("two")) p.Add(lin(a+v3(x,0,0),0,y)); samepath(p); }
VX_CASE(path_cyclic){ V3 a=sv("a"); double x=pos("x"); vx::assume_lt(1e-3,x); Path_Cyclic_Closed p(lin(a,x,0),1+vx::choose("times",3)); samepath(p); }
VX_CASE(path_nested){ V3 a=sv("a"); double x=pos("x"); vx::assume_lt(1e-3,x); Path_Composite p; p.Add(new Path_Cyclic_Closed(lin(a,x,0),2)); auto c=new Path_Composite; c->Add(lin(a,0,2)); p.Add(c); samepath(p,false); }
VX_CASE(path_rounded){ double x=pos("x",1,4),y=pos("y",1,4); vx::assume_lt(0.5,x); vx::assume_lt(0.5,y); Path_RoundedComposite P(0.25,1.0,new RotationalInterpolation_SingleAxis); P.Add(Frame(Vector(0,0,0))); P.Add(Frame(Vector(x,0,0))); P.Add(Frame(Vector(x,y,0))); P.Finish(); std::ostringstream o; o.precision(17); P.Write(o); std::istringstream is(o.str()); std::unique_ptr<Path> q(Path::Read(is)); double s=vx::real_s("s",0.1,3),L=P.PathLength(); vx::assume_le(0,s); vx::assume_le(s,L); eq("length",q->PathLength(),L); eq("pose",q->Pos(s),P.Pos(s),1e-5); eq("velocity",q->Vel(s,1),P.Vel(s,1),1e-5); vx::reach("end"); }
VX_CASE(path_rounded_text){ double x=pos("x",1,4),y=pos("y",1,4),r=0.25; vx::assume_lt(0.5,x); vx::assume_lt(0.5,y); auto fill=[&](Path_RoundedComposite&P){ P.Add(Frame(Vector(0,0,0))); P.Add(Frame(Vector(x,0,0))); P.Add(Frame(Vector(x,y,0))); P.Finish(); }; Path_RoundedComposite P(r,1.0,new RotationalInterpolation_SingleAxis); fill(P); std::ostringstream o; o.precision(17); o<<cased("ROUNDEDCOMPOSITE")<<"[ "<<r<<" 1 SingleAxis[] 3 "<<Frame(Vector(0,0,0))<<Frame(Vector(x,0,0))<<Frame(Vector(x,y,0))<<"] ;"; std::istringstream is(o.str()); std::unique_ptr<Path> q(Path::Read(is)); char c=0; is>>c; vx::check("read up to its end",c==';'); double s=vx::real_s("s",0.1,3),L=P.PathLength(); vx::assume_le(0,s); vx::assume_le(s,L); eq("length",q->PathLength(),L); eq("pose",q->Pos(s),P.Pos(s),1e-5); notrace("rounded"); vx::reach("end"); }
VX_CASE(trajectory_segment){ V3 a=sv("a"); double x=pos("x"); vx::assume_lt(1e-3,x); auto prof=new VelocityProfile_Trap(pos("V"),pos("A")); prof->SetProfile(0,x); Trajectory_Segment S(lin(a,x,0),prof); std::unique_ptr<Trajectory> q(reread(S,Trajectory::Read)); double t=vx::real_s("t",-1,9); eq("duration",q->Duration(),S.Duration()); eq("pose",q->Pos(t),S.Pos(t),1e-5); eq("velocity",q->Vel(t),S.Vel(t),1e-5); eq("acceleration",q->Acc(t),S.Acc(t),1e-5); vx::reach("end"); }
VX_CASE(bad_objects){ static const char*const P[]={"","X[]","POINT","POINT[","POINT[]","LINE[ ZERO","COMPOSITE[ x","COMPOSITE[ 1 ]","COMPOSITE[ 1 POINT[ [IDENTITY ZERO]","CYCLIC_CLOSED[ POINT[ [IDENTITY ZERO] ] x","LINE[ [IDENTITY ZERO][IDENTITY [1,0,0]] NoAxis[] 1]","LINE[ [IDENTITY ZERO][IDENTITY [1,0,0]] ThreeAxis[] 1]","LINE[ [IDENTITY ZERO][IDENTITY [1,0,0]] TwoAxis[] 1]","LINE[ [IDENTITY ZERO][IDENTITY [1,0,0]] SingleAxis[] 1","LINE[ [IDENTITY ZERO][IDENTITY [1,0,0]] SingleAxis[ x","CIRCLE[ [IDENTITY [1,0,0]] ZERO ZERO IDENTITY x","AVERYLONGKEYWORDAVERYLONGKEYWORDAVERYLONGKEYWORDAVERYLONGKEYWORDAVERYLONG[","ROUNDEDCOMPOSITE[ 0.1 1 SingleAxis[] 1 [IDENTITY ZERO","TRAPEZOIDAL[1,1]","SEGMENT[ POINT["};
  for(auto t:P){ std::istringstream is(t); int k=1; try{ delete Path::Read(is); } catch(Error&){ k=0; } catch(...){ k=-1; } cleartrace(); vx::check(string("path text \"")+t+"\" refused",k==0); }
  static const char*const Q[]={"","X[]","DIRACVEL","DIRACVEL[","CONSTVEL[x]","CONSTVEL[1","TRAPEZOIDAL[1]","TRAPEZOIDAL[1,2","TRAPEZOIDAL[1;2]","TRAPEZOIDAL[,2]","TRAPEZOIDALHALF[1,2]","TRAPEZOIDALHALF[1,2,","TRAPEZOIDALHALF[1,2,7]","TRAPEZOIDALHALFTRAPEZOIDALHALF[1]","POINT[ [IDENTITY ZERO] ]"};
  for(auto t:Q){ std::istringstream is(t); int k=1; try{ delete VelocityProfile::Read(is); } catch(Error&){ k=0; } catch(...){ k=-1; } cleartrace(); vx::check(string("profile text \"")+t+"\" refused",k==0); }
  static const char*const R[]={"","X[]","SEGMENT[","SEGMENT[ POINT[ [IDENTITY ZERO] ]","SEGMENT[ POINT[ [IDENTITY ZERO] ] DIRACVEL[]","SEGMENT[ DIRACVEL[] POINT[ [IDENTITY ZERO] ] ]","POINT[ [IDENTITY ZERO] ]"};
  for(auto t:R){ std::istringstream is(t); int k=1; try{ delete Trajectory::Read(is); } catch(Error&){ k=0; } catch(...){ k=-1; } cleartrace(); vx::check(string("trajectory text \"")+t+"\" refused",k==0); }
  vx::reach("end"); }
