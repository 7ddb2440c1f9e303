// SRC: frames utilities/utility joint segment chain rigidbodyinertia rotationalinertia jntarray
// BOUNDS: all sequences of 4 (thorough 5) edit operations over 9 operations on two chains; segments carry symbolic tip offsets
#include "chn.h"
using namespace KDL; using namespace kx;
static void edits(int N){ vx::must_terminate(true);
  struct Ref{ std::vector<std::pair<string,double>> s; std::vector<bool> mv; int nj()const{ int n=0; for(bool b:mv) n+=b; return n; } void add(const Ref&o){ Ref c=o; s.insert(s.end(),c.s.begin(),c.s.end()); mv.insert(mv.end(),c.mv.begin(),c.mv.end()); } };
  Chain A,B; Ref a,b; int k=0;
  auto add=[&](Chain&C,Ref&r,int ty){ double x=vx::real(idx("x",k)); string nm=idx("s",k++); C.addSegment(Segment(nm,ty==6?Joint(nm+"j",Joint::Fixed):ty>=7?Joint(nm+"j",Vector(0,0,0),Vector(0,1,0),JT[ty]):Joint(nm+"j",JT[ty]),Frame(Vector(x,0,0)))); r.s.push_back({nm,x}); r.mv.push_back(ty!=6); };
  auto same=[&](const string&l,const Chain&C,const Ref&r){ vx::check(l+" segments",C.getNrOfSegments()==r.s.size()&&C.segments.size()==r.s.size()); vx::check(l+" joints",(int)C.getNrOfJoints()==r.nj()); if(C.segments.size()!=r.s.size()) return; for(size_t i=0;i<r.s.size();i++){ vx::check(l+" order",C.getSegment(i).getName()==r.s[i].first&&C.segments[i].getName()==r.s[i].first); vx::check(l+" kind",(C.getSegment(i).getJoint().getType()!=Joint::Fixed)==r.mv[i]); eq(l+" content",C.getSegment(i).getFrameToTip().p.data[0],r.s[i].second); } };
  add(A,a,vx::choose("t0",9));
  for(int i=0;i<N;i++){ switch(vx::choose(idx("op",i),10)){
    case 0: add(A,a,i%6); break; case 1: add(B,b,6); break; case 2: A.addChain(B); a.add(b); break; case 3: A.addChain(A); a.add(a); break; case 4: B=A; b=a; break; case 5: A=A; break; case 6: { Chain C(A); add(C,a,2); a.s.pop_back(); a.mv.pop_back(); break; } case 7: { Chain C(A); B.addChain(C); b.add(a); break; } case 8: A=Chain(); a=Ref(); break;
    case 9: if(A.getNrOfSegments()){ A.addSegment(A.getSegment(0)); a.s.push_back(a.s[0]); a.mv.push_back(a.mv[0]); } break; }
    same("A",A,a); same("B",B,b); if(a.s.size()>24) return; }
  // copies are independent
  Chain C(A),D; D=A; if(C.getNrOfSegments()){ double x=vx::real("nx"); C.getSegment(0).setFrameToTip(Frame(Vector(x,0,0))); add(D,b,3); same("A after editing its copies",A,a); eq("the edited copy",C.getSegment(0).getFrameToTip().p.data[0],x); } }
VX_CASE(edits2){ edits(2); }
VX_CASE(edits3){ edits(3); }
VX_CASE_THOROUGH(edits4){ edits(4); }
