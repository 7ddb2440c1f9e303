// Exact rationals with an int64 fast path.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <string>
#include <cmath>
namespace vx {
struct Q{
  int64_t n=0,d=1; mpq_class*b=nullptr;
  Q(){} Q(int64_t x):n(x),d(1){} Q(int x):n(x),d(1){}
  Q(int64_t x,int64_t y){ norm128(x,y); }
  Q(const mpq_class&m){ set(m); }
  Q(const Q&o):n(o.n),d(o.d),b(o.b?new mpq_class(*o.b):nullptr){}
  Q(Q&&o)noexcept:n(o.n),d(o.d),b(o.b){o.b=nullptr;}
  Q&operator=(const Q&o){ if(this!=&o){ delete b; n=o.n;d=o.d;b=o.b?new mpq_class(*o.b):nullptr;} return *this;}
  Q&operator=(Q&&o)noexcept{ std::swap(n,o.n);std::swap(d,o.d);std::swap(b,o.b);return *this;}
  ~Q(){delete b;}
  static __int128 gcd(__int128 a,__int128 c){ if(a<0)a=-a; if(c<0)c=-c; while(c){ if((a>>63)==0&&(c>>63)==0){ uint64_t x=(uint64_t)a,y=(uint64_t)c; while(y){uint64_t t=x%y;x=y;y=t;} return x;} __int128 t=a%c;a=c;c=t;} return a;}
  static mpz_class z128(__int128 v){ bool neg=v<0; unsigned __int128 u=neg?-(unsigned __int128)v:(unsigned __int128)v; mpz_class hi((unsigned long)(u>>64)),lo((unsigned long)u); mpz_class r=(hi<<64)+lo; return neg?mpz_class(-r):r; }
  void norm128(__int128 x,__int128 y){
    if(y<0){x=-x;y=-y;}
    __int128 g=gcd(x,y); if(g>1){x/=g;y/=g;}
    const __int128 L=INT64_MAX;
    if(x<=L&&x>=-L&&y<=L){ n=(int64_t)x;d=(int64_t)y; delete b; b=nullptr; }
    else { mpq_class m(z128(x),z128(y)); m.canonicalize(); if(b)*b=m; else b=new mpq_class(m); }
  }
  void set(const mpq_class&m){
    if(m.get_num().fits_slong_p()&&m.get_den().fits_slong_p()&&m.get_num().get_si()!=INT64_MIN){ n=m.get_num().get_si(); d=m.get_den().get_si(); delete b; b=nullptr; }
    else { if(b)*b=m; else b=new mpq_class(m); }
  }
  mpq_class big()const{ return b?*b:mpq_class(mpz_class((long)n),mpz_class((long)d)); }
  bool zero()const{ return b?(sgn(*b)==0):n==0; }
  bool isint()const{ return b?b->get_den()==1:d==1; }
  bool one()const{ return !b&&n==1&&d==1; }
  int sign()const{ return b?sgn(*b):(n>0)-(n<0); }
  Q operator+(const Q&o)const{ if(!b&&!o.b){ Q r; if(d==1&&o.d==1) r.norm128((__int128)n+o.n,1); else r.norm128((__int128)n*o.d+(__int128)o.n*d,(__int128)d*o.d); return r;} return Q(mpq_class(big()+o.big())); }
  Q operator-()const{ if(!b){Q r;r.n=-n;r.d=d;return r;} return Q(mpq_class(-*b)); }
  Q operator-(const Q&o)const{ return *this+(-o); }
  Q operator*(const Q&o)const{ if(!b&&!o.b){ Q r; r.norm128((__int128)n*o.n,(__int128)d*o.d); return r;} return Q(mpq_class(big()*o.big())); }
  Q operator/(const Q&o)const{ if(!b&&!o.b){ Q r; r.norm128((__int128)n*o.d,(__int128)d*o.n); return r;} return Q(mpq_class(big()/o.big())); }
  bool operator==(const Q&o)const{ if(!b&&!o.b) return n==o.n&&d==o.d; return big()==o.big(); }
  bool operator!=(const Q&o)const{ return !(*this==o); }
  bool operator<(const Q&o)const{ if(!b&&!o.b) return (__int128)n*o.d<(__int128)o.n*d; return big()<o.big(); }
  double dbl()const{ return b?b->get_d():(double)n/(double)d; }
  std::string str()const{ return b?b->get_str():(d==1?std::to_string(n):std::to_string(n)+"/"+std::to_string(d)); }
  size_t bits()const{ if(!b) return 64; return mpz_sizeinbase(b->get_num().get_mpz_t(),2)+mpz_sizeinbase(b->get_den().get_mpz_t(),2); }
  Q abs()const{ return sign()<0?-*this:*this; }
  std::string smt()const{ mpq_class m=big(); mpz_class nn=m.get_num(); bool neg=nn<0; if(neg) nn=-nn; std::string s=nn.get_str()+".0"; if(m.get_den()!=1) s="(/ "+s+" "+m.get_den().get_str()+".0)"; return neg?"(- "+s+")":s; }
};
}
