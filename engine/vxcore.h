// Symbolic state: DAG nodes, worlds (witness valuations), normal forms.
#pragma once
#include "vxpoly.h"
#include <array>
#include <cstring>
#include <cstdio>
#include <functional>
namespace vx {
enum NOp:uint8_t{N_CONST,N_PI,N_VAR,N_ADD,N_SUB,N_MUL,N_DIV,N_NEG,N_SQRT,N_SIN,N_COS,N_ATAN2,N_ABS,N_EXP,N_LOG};
struct Node{ NOp op; int a,b; };
enum{W=12};
typedef std::array<double,W> WV;
extern std::vector<Node> nodes; extern std::vector<WV> vals; extern std::vector<Q> consts;
struct Var{ std::string name; int node; double lo,hi; bool hard; bool garbage; };
extern std::vector<Var> vars;
extern unsigned alive; // bitmask of worlds satisfying the path
int mk(NOp op,int a,int b); int mkConst(const Q&q); int mkVar(const std::string&name,double lo,double hi,bool hard,bool garbage);
const RF& norm(int node);
void bumpEpoch(); extern int epoch;
enum{NEG=1,ZERO=2,POS=4};
int signOfPoly(const Poly&p);                    // may fork
bool truth(int node,int set);                    // may fork; sign(node) in set ?
void assumeRel(int node,int set);                // no fork
bool addConstraintPoly(const Poly&p,int set,int node); // false: path infeasible
void evalWorld(int w); double evalNode(int n,int w);
int polyNode(const Poly&p);
int atomVar(int varIndex);
extern std::vector<int> varAtom;
void interval(const Poly&p,double&lo,double&hi);
struct Base{ int gran=1; std::map<int,std::pair<int,int>> sc; int termNode=-1; int var=-1; Q q1; };
}
