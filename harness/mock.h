// Stand-ins for the abstract parts of motion planning: any path, profile, interpolation behind the public interfaces.
#pragma once
#include "mot.h"
#include <path.hpp>
#include <velocityprofile.hpp>
#include <rotational_interpolation.hpp>
#include <trajectory.hpp>
namespace kx {
static int ALIVE=0;
// single-axis interpolation about a fixed body axis (z) over a given angle; records how it was queried
struct MInterp:KDL::RotationalInterpolation{ KDL::Rotation s,e; double al; mutable double th,thd,thdd; bool set=false; MInterp(double a):al(a){ ALIVE++; } ~MInterp(){ ALIVE--; } void SetStartEnd(KDL::Rotation a,KDL::Rotation b){ s=a; e=b; set=true; } double Angle(){ return al; }
  KDL::Rotation Pos(double t)const{ th=t; return kr(mul(of(s),rotz(t))); } KDL::Vector Vel(double t,double d)const{ th=t; thd=d; return kv(mul(of(s),v3(0,0,d))); } KDL::Vector Acc(double t,double d,double dd)const{ th=t; thd=d; thdd=dd; return kv(mul(of(s),v3(0,0,dd))); } void Write(std::ostream&)const{} KDL::RotationalInterpolation*Clone()const{ MInterp*c=new MInterp(al); c->SetStartEnd(s,e); return c; } };
// a path whose answers encode which path was asked, where and with which rates
struct MPath:KDL::Path{ double L; int id; MPath(int i,double l):L(l),id(i){ ALIVE++; } ~MPath(){ ALIVE--; } double LengthToS(double l){ return 2*l; } double PathLength(){ return L; } KDL::Frame Pos(double s)const{ return KDL::Frame(KDL::Vector(id,s,0)); } KDL::Twist Vel(double s,double sd)const{ return KDL::Twist(KDL::Vector(id,s,sd),KDL::Vector(s*sd,sd,1)); } KDL::Twist Acc(double s,double sd,double sdd)const{ return KDL::Twist(KDL::Vector(id,s,sd),KDL::Vector(sdd,s,2)); } void Write(std::ostream&){} KDL::Path*Clone(){ return new MPath(id,L); } IdentifierType getIdentifier()const{ return ID_POINT; } };
struct MProf:KDL::VelocityProfile{ double a,b,c,D; double p1,p2,dur; int calls=0; MProf(double x,double y,double z,double d):a(x),b(y),c(z),D(d){ ALIVE++; } ~MProf(){ ALIVE--; } void SetProfile(double x,double y){ p1=x; p2=y; calls=100; } void SetProfileDuration(double x,double y,double d){ p1=x; p2=y; dur=d; calls++; } double Duration()const{ return D; } double Pos(double t)const{ return a+t*(b+c*t); } double Vel(double t)const{ return b+2*c*t; } double Acc(double t)const{ return 2*c; } void Write(std::ostream&)const{} KDL::VelocityProfile*Clone()const{ return new MProf(a,b,c,D); } };
struct MTraj:KDL::Trajectory{ int id; double D; MTraj(int i,double d):id(i),D(d){ ALIVE++; } ~MTraj(){ ALIVE--; } double Duration()const{ return D; } KDL::Frame Pos(double t)const{ return KDL::Frame(KDL::Vector(id,t,0)); } KDL::Twist Vel(double t)const{ return KDL::Twist(KDL::Vector(id,t,1),KDL::Vector(0,0,0)); } KDL::Twist Acc(double t)const{ return KDL::Twist(KDL::Vector(id,t,2),KDL::Vector(0,0,0)); } KDL::Trajectory*Clone()const{ return new MTraj(id,D); } void Write(std::ostream&)const{} };
}
