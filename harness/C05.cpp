// SRC: frames utilities/utility
#include "kx.h"
using namespace KDL; using namespace kx;
static const double PIc=3.141592653589793;
static void verify(const Rotation&R,const string&l){
  Vector ax; double a=R.GetRotAngle(ax); eq(l+" Rot(axis,angle)",Rotation::Rot2(ax,a),R,1e-5); eq(l+" unit axis",dot(of(ax),of(ax)),1.0,1e-5); vx::check_le(l+" angle>=0",0,a); vx::check_le(l+" angle<=pi",a,PIc);
  Vector rv=R.GetRot(); eq(l+" GetRot",of(rv),a*of(ax));
}
VX_CASE(generic){ V3 u=sunit("u"); double t=vx::range("t",1e-4,3.1415); vx::assume_lt(5e-5,sin(t)); Rotation R=kr(axang(u,t)); verify(R,"generic"); Vector ax; double a=R.GetRotAngle(ax); eq("cos angle",cos(a),cos(t)); eq("sin angle",sin(a),sin(t)); eq("axis",of(ax),u,1e-5); vx::reach("end"); }
VX_CASE(halfturn){ V3 u=sunit("u"); M3 m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m.m[i][j]=2*u[i]*u[j]-(i==j); verify(kr(m),"half-turn"); Vector ax; double a=kr(m).GetRotAngle(ax); eq("angle is pi",a,PIc); vx::reach("end"); }
// half-turns about an axis in a coordinate plane or along a coordinate axis
VX_CASE(halfturn_planes){ int k=vx::choose("plane",3); double h=vx::real("h"); V3 u; u[k]=0; u[(k+1)%3]=cos(h); u[(k+2)%3]=sin(h); M3 m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m.m[i][j]=2*u[i]*u[j]-(i==j); verify(kr(m),"half-turn plane"); }
VX_CASE(halfturn_axes){ int k=vx::choose("axis",3); M3 m=eye(); for(int i=0;i<3;i++) if(i!=k) m.m[i][i]=-1; verify(kr(m),"half-turn axis"); }
VX_CASE(identity){ verify(Rotation::Identity(),"identity"); Vector ax; eq("angle",Rotation::Identity().GetRotAngle(ax),0.0); eq("GetRot",Rotation::Identity().GetRot(),Vector(0,0,0)); }
VX_CASE(own_eps){ V3 u=sunit("u"); double t=vx::range("t",0.1,3.0); vx::assume_lt(0.09,sin(t)); double e=vx::choose("eps",2)?1e-3:1e-10; Rotation R=kr(axang(u,t)); Vector ax; double a=R.GetRotAngle(ax,e); eq("Rot(axis,angle) eps",Rotation::Rot2(ax,a),R,1e-5); }
