// SRC: frames utilities/utility joint segment chain tree rigidbodyinertia rotationalinertia
// BOUNDS: every history of up to 3 edits (segment, chain or tree addition with any of 3 names at any hook, copy, assignment, self-assignment, sub-tree in place) on an empty or three-segment tree; chains between all pairs of segments of trees with up to 4 segments (up to 2 segments towards the root and 2 away from it), all joint types, all scales, offsets, positions, tips and inertias
#include "tre.h"
#include <map>
#include <set>
using namespace KDL; using namespace kx;
// ---- a model of the tree, kept beside the real one ----------------------------------------------------------
struct Nd{ string par; bool fixed; P tip; SJ j; };
struct Md{ string root; std::map<string,Nd> n; };
static int CNT;
static Nd mknd(const string&nm,bool fixed){ Nd d; string u=nm+idx("#",CNT++); d.fixed=fixed; d.j=mkj(u,fixed?6:7,true,false); d.tip=mktip(u,2); return d; }
static Segment sg(const string&nm,const Nd&d){ SS s; s.j=d.j; s.tip=d.tip; return s.seg(nm); }
static unsigned qn(const Tree&t,const string&n){ return GetTreeElementQNr(t.getSegment(n)->second); }
typedef std::map<string,unsigned> QN;
static QN numbers(const Tree&t,const Md&m){ QN r; for(auto&k:m.n) if(!k.second.fixed) r[k.first]=qn(t,k.first); return r; }
static bool anc(const Md&m,const string&a,string x){ for(;;){ if(x==a) return true; if(x==m.root) return false; x=m.n.at(x).par; } }
static void judge(const string&l,const Tree&t,const Md&m){
  const SegmentMap&S=t.getSegments(); unsigned moving=0; for(auto&k:m.n) moving+=!k.second.fixed;
  vx::check(l+": counts",t.getNrOfSegments()==m.n.size()&&t.getNrOfJoints()==moving&&S.size()==m.n.size()+1);
  auto r=t.getRootSegment(); vx::check(l+": root",r!=S.end()&&r->first==m.root&&t.getSegment(m.root)==r);
  std::set<unsigned> q; 
  for(auto&k:m.n){ auto it=t.getSegment(k.first); vx::check(l+": present",it!=S.end()); if(it==S.end()) return; const Segment&s=GetTreeElementSegment(it->second); auto p=GetTreeElementParent(it->second); auto pp=t.getSegment(k.second.par);
    vx::check(l+": parent",p==pp); vx::check(l+": name",s.getName()==k.first); if(!k.second.fixed) q.insert(qn(t,k.first));
    int c=0; for(auto&x:GetTreeElementChildren(pp->second)) c+=x==it; vx::check(l+": listed once by its parent",c==1);
    double v=vx::real("pos"); SS s0; s0.j=k.second.j; s0.tip=k.second.tip; eq(l+": pose",s.pose(v),s0.pose(v)); }
  for(auto it=S.begin();it!=S.end();++it){ size_t c=0; for(auto&k:m.n) c+=k.second.par==it->first; vx::check(l+": children",GetTreeElementChildren(it->second).size()==c); for(auto&x:GetTreeElementChildren(it->second)) vx::check(l+": child belongs to the parent",GetTreeElementParent(x->second)==SegmentMap::const_iterator(it)); }
  vx::check(l+": joint numbers",q.size()==moving&&(moving==0||*q.rbegin()==moving-1)); }
static const char*NM[]={"b","a","c"};
static Md small(Tree&t,bool vary=true){ CNT=0; Md m; m.root="base"; int order=vx::choose("order",3); static const int O[3][3]={{0,1,2},{0,2,1},{1,0,2}}; static const char*N[]={"b","a","d"}; static const char*P[2][3]={{"base","b","b"},{"base","base","b"}}; int sh=order==2; 
  for(int i=0;i<3;i++){ int k=O[order][i]; Nd d=mknd(N[k],k==2&&vary&&vx::flip("fixed")); d.par=P[sh][k]; vx::check("added",t.addSegment(sg(N[k],d),d.par)); m.n[N[k]]=d; } return m; }
static void edit(int step,Tree&t,Md&m,int nops,bool lean=false){ auto hook=[&](const string&x){ static const int L[]={0,2,4}; return lean?L[vx::choose(x,3)]:vx::choose(x,5); }; auto fx2=[&](const string&x){ return !lean&&vx::flip(x); }; string l=idx("edit",step); QN before=numbers(t,m); bool kept=true; int op=vx::choose(l+" kind",nops); static const char*HK[]={"base","b","a","c","nowhere"};
  if(op==0){ string n=NM[lean?1+vx::choose(l+" name",2):vx::choose(l+" name",3)],h=HK[hook(l+" hook")]; Nd d=mknd(n,fx2(l+" fixed")); d.par=h; bool ok=(h==m.root||m.n.count(h))&&!m.n.count(n)&&n!=m.root; vx::check("segment added unless the hook is unknown or the name is taken",t.addSegment(sg(n,d),h)==ok); if(ok) m.n[n]=d; }
  else if(op==1){ Tree u(t); judge(l+" copied",u,m); vx::check("copy numbers joints alike",numbers(u,m)==before); t=u; judge(l+" original",u,m); }
  else if(op==2){ t=*&t; }
  else if(op==3){ string h=HK[hook(l+" hook")]; Chain c; Nd d[2]; int a=lean?1:vx::choose(l+" first",2); bool fx=fx2(l+" fixed"); for(int i=0;i<2;i++){ d[i]=mknd(NM[a+i],i==0&&fx); c.addSegment(sg(NM[a+i],d[i])); } bool r=t.addChain(c,h); bool ok=h==m.root||m.n.count(h); string par=h; for(int i=0;i<2&&ok;i++){ ok=!m.n.count(NM[a+i])&&m.root!=NM[a+i]; if(ok){ d[i].par=par; m.n[NM[a+i]]=d[i]; par=NM[a+i]; } } vx::check("chain added unless the hook is unknown or a name is taken",r==ok); }
  else if(op==4){ string h=HK[hook(l+" hook")]; Tree u("other"); Nd c=mknd("c",false),e=mknd("e",fx2(l+" fixed")),f=mknd("f",false); u.addSegment(sg("e",e),"other"); u.addSegment(sg("f",f),"other"); u.addSegment(sg("c",c),"e"); bool hk=h==m.root||m.n.count(h); bool r=t.addTree(u,h); bool ok=hk&&!m.n.count("c")&&!m.n.count("e")&&!m.n.count("f")&&m.root!="c"; vx::check("tree added unless the hook is unknown or a name is taken",r==ok);
    if(ok){ e.par=h; f.par=h; c.par="e"; m.n["e"]=e; m.n["f"]=f; m.n["c"]=c; } else { for(auto*x:{"e","c","f"}) if(hk&&!m.n.count(x)&&x!=m.root&&t.getSegment(x)!=t.getSegments().end()){ Nd d=string(x)=="c"?c:string(x)=="e"?e:f; d.par=string(x)=="c"?"e":h; m.n[x]=d; } } }      // what fitted before the clash may stay, but consistently
  else { string n=HK[lean?1+vx::choose(l+" sub-tree",3):vx::choose(l+" sub-tree",4)]; bool ok=n==m.root||m.n.count(n); bool in=vx::flip(l+" in place"); Tree u("old"); u.addSegment(Segment("junk"),"old"); Tree&dst=in?t:u; Md k; k.root=n; if(ok) for(auto&x:m.n) if(x.first!=n&&anc(m,n,x.first)) k.n[x.first]=x.second; vx::check("sub-tree exists",t.getSubTree(n,dst)==ok); if(ok) judge(l+" sub-tree",dst,k); if(ok&&!in) judge(l+" untouched",t,m); if(ok){ if(!in) t=u; m=k; kept=false; } }
  judge(l,t,m); if(kept){ QN after=numbers(t,m); for(auto&k:before) vx::check("existing joints keep their number",after[k.first]==k.second); } }
VX_CASE(build){ CNT=0; Tree t("base"); Md m; m.root="base"; judge("empty",t,m); vx::check("default root",Tree().getRootSegment()->first=="root"); for(int i=0;i<3;i++) edit(i,t,m,1,i==1); }
VX_CASE(edit1){ Tree t("base"); Md m=small(t); judge("small",t,m); edit(0,t,m,6); }
VX_CASE(edit2){ Tree t("base"); Md m=small(t,false); edit(0,t,m,6,true); edit(1,t,m,6,true); }
VX_CASE_THOROUGH(edit3){ Tree t("base"); Md m=small(t); edit(0,t,m,6,true); edit(1,t,m,6); edit(2,t,m,6,true); }
VX_CASE(refused_lookups){ Tree t("base"); Md m=small(t); Chain c; const char*a[]={"base","a","nowhere",""}; int i=vx::choose("root",4),j=vx::choose("tip",4); vx::check("chain between known segments only",t.getChain(a[i],a[j],c)==(i<2&&j<2)); vx::check("unknown segment",t.getSegment("nowhere")==t.getSegments().end()); Tree u("keep"); vx::check("unknown sub-tree",!t.getSubTree("nowhere",u)); judge("unchanged",t,m); }
// ---- chains out of trees ------------------------------------------------------------------------------------
static void chain(ST T,int a,int b,bool iner){ int ns=T.s.size(); std::vector<RI> I; std::vector<double> jp[3]; for(int i=0;i<ns;i++){ I.push_back(iner?sri(idx("I",i)):zri()); for(auto&v:jp) v.push_back(iner?vx::real(idx("joint",3*i+(&v-jp))):0.0); }
  Tree t(T.root); for(int i:T.order) vx::check("added",t.addSegment(Segment(T.name[i],T.s[i].j.joint(T.name[i]+"_j",jp[0][i],jp[1][i],jp[2][i]),kf(T.s[i].tip),I[i].rbi()),T.nm(T.par[i])));
  auto up=T.path(a),dn=T.path(b); size_t c=0; while(c<up.size()&&c<dn.size()&&up[c]==dn[c]) c++; std::vector<int> stop,jn; for(size_t i=up.size();i>c;i--){ stop.push_back(i-2<up.size()?up[i-2]:-1); jn.push_back(up[i-1]); } for(size_t i=c;i<dn.size();i++){ stop.push_back(dn[i]); jn.push_back(dn[i]); }
  Chain C; C.addSegment(Segment("junk")); vx::check("extracted",t.getChain(T.nm(a),T.nm(b),C)); vx::check("length",C.getNrOfSegments()==stop.size()); unsigned mv=0; for(int k:jn) mv+=T.s[k].j.moving(); vx::check("joints",C.getNrOfJoints()==mv);
  auto q=svq("q",T.nj()); auto qn=T.qnr(); P A=T.pose(a,q,qn); Frame r=Frame::Identity(); 
  for(size_t i=0;i<stop.size();i++){ const Segment&s=C.getSegment(i); string l=idx("segment",i); vx::check(l+" name",s.getName()==T.nm(stop[i])); vx::check(l+" joint name",s.getJoint().getName()==T.name[jn[i]]+"_j"); bool m=T.s[jn[i]].j.moving(); vx::check(l+" joint kind",(s.getJoint().getType()!=Joint::Fixed)==m);
    double v=m?q[qn[jn[i]]]:0.0; r=r*s.pose(v); eq(l+" relative pose",r,pinv(A)*T.pose(stop[i],q,qn)); if(m){ Tw w=twist_wrt(of(s.pose(v)),v); eq(l+" twist",s.twist(v,1.0),w,1e-4); }
    if(iner){ int k=jn[i]; if(m){ vx::check_eq(l+" joint inertia",s.getJoint().getInertia(),jp[0][k]); vx::check_eq(l+" damping",s.getJoint().getDamping(),jp[1][k]); vx::check_eq(l+" stiffness",s.getJoint().getStiffness(),jp[2][k]); } RI z=stop[i]<0?zri():I[stop[i]]; Tw g=stw("motion"); eqw(l+" inertia",s.getInertia()*kt(g),z.mom(g)); } } }
static ST fork(const int*types,int nt,int tipk,bool order){ std::vector<int> o=order&&vx::flip("order")?std::vector<int>{0,2,1}:std::vector<int>{0,1,2}; return mkst({-1,0,0},{"m","z","a"},o,types,nt,tipk); }
static const int ALL[]={0,1,2,3,4,5,6,7,8};
VX_CASE(chain_down_up){ ST T=mkst({-1},{"a"},{0},ALL,9,3); if(vx::flip("up")) chain(T,0,-1,true); else chain(T,-1,0,true); }
VX_CASE(chain_fork){ static const int t[]={6,7,8}; ST T=fork(t,3,2,true); int a=vx::choose("from",4)-1,b=vx::choose("to",4)-1; chain(T,a,b,true); }
VX_CASE(chain_two_up){ static const int t[]={1,7,8}; ST T=mkst({-1,0,1},{"m","z","a"},{0,1,2},t,3,2); chain(T,2,vx::choose("to",4)-1,false); }
VX_CASE(chain_two_up_two_down){ static const int t[]={7,8}; ST T=mkst({-1,0,-1,2},{"m","z","a","y"},{0,2,1,3},t,2,2); chain(T,1,3,false); }
VX_CASE_THOROUGH(chain_fork_all){ ST T=fork(ALL,9,1,true); int a=vx::choose("from",4)-1,b=vx::choose("to",4)-1; chain(T,a,b,false); }
