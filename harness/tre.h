// Symbolic trees: parents, segments, insertion order, and the reference pose of every segment.
#pragma once
#include "iner.h"
#include <tree.hpp>
namespace kx {
struct ST{ std::vector<SS> s; std::vector<int> par; std::vector<string> name; string root="base"; std::vector<int> order;
  string nm(int i)const{ return i<0?root:name[i]; }
  KDL::Tree tree()const{ KDL::Tree t(root); for(int i:order) vx::check("segment accepted",t.addSegment(seg(i),nm(par[i]))); return t; }
  KDL::Segment seg(int i)const{ return s[i].seg(name[i]); }
  int nj()const{ int n=0; for(auto&x:s) n+=x.j.moving(); return n; }
  std::vector<int> qnr()const{ std::vector<int> r(s.size(),-1); int n=0; for(int i:order) if(s[i].j.moving()) r[i]=n++; return r; }   // numbered as they were added
  std::vector<int> path(int i)const{ std::vector<int> r; for(;i>=0;i=par[i]) r.insert(r.begin(),i); return r; }
  SC branch(int i)const{ SC c; for(int k:path(i)) c.s.push_back(s[k]); return c; }
  std::vector<double> bq(int i,const std::vector<double>&q,const std::vector<int>&qn)const{ std::vector<double> r; for(int k:path(i)) if(qn[k]>=0) r.push_back(q[qn[k]]); return r; }
  P pose(int i,const std::vector<double>&q,const std::vector<int>&qn)const{ if(i<0) return pid(); auto p=path(i); return branch(i).pose(bq(i,q,qn),p.size()); } };
inline ST mkst(const std::vector<int>&par,const std::vector<string>&name,const std::vector<int>&order,const int*types,int nt,int tipk,bool scaled=true,bool symaxis=false){ ST t; t.par=par; t.name=name; t.order=order; for(size_t i=0;i<par.size();i++){ SS s; s.j=mkj(idx("j",i),types[nt==1?0:vx::choose(idx("type",i),nt)],scaled,symaxis); s.tip=mktip(idx("t",i),tipk); t.s.push_back(s); } return t; }
}
