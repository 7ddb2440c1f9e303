// Harness API of the symbolic executor. The same harness source is executed symbolically (IR pass + vxrt.cpp)
// and concretely (replay of a solver model against the real code).
#pragma once
#include <string>
#include <functional>
namespace vx {
// ---- inputs -------------------------------------------------------------------------------------------
double real(const char*name);                                  // any real number
double real(const std::string&name);
double range(const std::string&name,double lo,double hi);      // lo < x < hi is assumed
double real_s(const std::string&name,double lo,double hi);     // any real; [lo,hi] is only where witnesses are looked for first
int choose(const std::string&name,int n);                      // forks over 0..n-1
bool flip(const std::string&name);
// ---- assumptions --------------------------------------------------------------------------------------
void assume(bool c);                 // current path only
void assume_lt(double a,double b);
void assume_le(double a,double b);
void assume_ne(double a,double b);
void assume_eq(double a,double b);
void generic_div(bool on);           // on: symbolic denominators are assumed nonzero (listed as an assumption)
void note(const std::string&s);      // assumption / bound text for the evidence file
// ---- obligations --------------------------------------------------------------------------------------
void check_eq(const std::string&label,double a,double b,double tol=1e-6);
void check_le(const std::string&label,double a,double b,double tol=1e-6);   // a <= b
void check_lt(const std::string&label,double a,double b);
void check(const std::string&label,bool c);
void reach(const std::string&label);  // vacuity witness: must be reached with a satisfiable path
// ---- calculus -----------------------------------------------------------------------------------------
double diff(double expr,double var);  // exact derivative (symbolic) / central difference (concrete)
double diff2(double expr,double var);
// ---- misc ---------------------------------------------------------------------------------------------
bool concrete();
bool is_sym(double x);
double value(double x);               // witness value (debug)
void must_terminate(bool on);         // a path that does not terminate is a violation
void exact_consts(bool on);
void debug(const char*tag,double x);
typedef void(*CaseFn)();
struct Reg{ Reg(const char*name,CaseFn f,int tier); };
}
#define VX_CASE(n) static void vxcase_##n(); static vx::Reg vxreg_##n(#n,vxcase_##n,0); static void vxcase_##n()
#define VX_CASE_THOROUGH(n) static void vxcase_##n(); static vx::Reg vxreg_##n(#n,vxcase_##n,1); static void vxcase_##n()
