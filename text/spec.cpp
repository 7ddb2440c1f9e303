// Solver-decided check of the tokenizer (utility_io): every text of up to NN bytes, every byte value, every buffer of
// 1..CAP characters. MODE 0: EatWord, 1: Eat(delimiter), 2: EatEnd. Compiled by goto-cc with the stub stream in stub/
// (bounded model checking) and natively with the real std::istringstream (replay of a counterexample).
#ifdef VX_CBMC
#include <iostream>
#define AT(i) ((int)std::T[i])
#define LENGTH std::LEN
#define CHECK(c,l) __CPROVER_assert(c,l)
static void vx_thrown();
#define throw vx_thrown(),
#include "utility_io_copy.cxx"
#undef throw
#else
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <utilities/utility_io.h>
#include <utilities/error.h>
static std::string TX; static int fails;
#define AT(i) ((int)(unsigned char)TX[i])
#define LENGTH ((int)TX.size())
#define CHECK(c,l) do{ if(!(c)){ fails++; printf("FAIL %s\n",l); } }while(0)
#endif
static int at(int i){ return i<LENGTH?AT(i):-1; }
static bool R_ok; static int R_len, R_pos; static char R_w[CAP+2];
// reference reader: one pass over the text; phase 0 before the word, 1 in the word, 2 after it
static void ref_word(int cap){ int phase=0,mode=0; R_ok=true; R_len=0; R_pos=-1; bool stop=false; int skip=0;
 for(int i=0;i<=NN;i++){ if(stop) continue; if(skip){ skip=0; continue; } int c=at(i);
  if(mode==1){ if(c==-1){ R_ok=false; stop=true; } else if(c=='\n') mode=0; continue; }
  if(mode==2){ if(c==-1){ R_ok=false; stop=true; } else if(c=='*'&&at(i+1)=='/'){ mode=0; skip=1; } continue; }
  bool sp=c==' '||c=='\n'||c=='\t', cm=c=='#'||(c=='/'&&(at(i+1)=='/'||at(i+1)=='*'));
  if(sp||cm){ if(phase==1) phase=2; if(c=='#') mode=1; if(c=='/'){ mode=at(i+1)=='/'?1:2; skip=1; } continue; }
  if(c==-1||phase==2||c=='['||c==']'||c==0){ stop=true; R_pos=i; continue; }
  phase=1; if(R_len>=cap-1){ R_ok=false; stop=true; } else { R_w[R_len]=(char)((c>='a'&&c<='z')?c-32:c); R_len++; } } }
// skip white space and comments, expect one ';', for Eat also skip what follows
static void ref_delim(bool both){ int phase=0,mode=0; R_ok=true; R_pos=-1; bool stop=false; int skip=0;
 for(int i=0;i<=NN;i++){ if(stop) continue; if(skip){ skip=0; continue; } int c=at(i);
  if(mode==1){ if(c==-1){ R_ok=false; stop=true; } else if(c=='\n') mode=0; continue; }
  if(mode==2){ if(c==-1){ R_ok=false; stop=true; } else if(c=='*'&&at(i+1)=='/'){ mode=0; skip=1; } continue; }
  if(phase==1&&!both){ stop=true; R_pos=i; continue; }
  bool sp=c==' '||c=='\n'||c=='\t', cm=c=='#'||(c=='/'&&(at(i+1)=='/'||at(i+1)=='*'));
  if(sp||cm){ if(c=='#') mode=1; if(c=='/'){ mode=at(i+1)=='/'?1:2; skip=1; } continue; }
  if(phase==0&&c==';'){ phase=1; if(!both){ stop=true; R_pos=i+1; } continue; }
  if(phase==0) R_ok=false;
  stop=true; R_pos=i; } }
static void spec(int cap){ if(MODE==0) ref_word(cap); else ref_delim(MODE==1); }
// the stream after a text that ends in the middle of things is not usable: nothing is asked of the next character there
static bool usable(){ int c=at(R_pos); return c!=-1&&!(c=='/'&&R_pos+1>=LENGTH); }
#ifdef VX_CBMC
static void vx_thrown(){ __CPROVER_assert(!R_ok,"well formed text is refused"); __CPROVER_assume(0); }
int main(){ std::istream is; int n,cap; __CPROVER_assume(n>=0&&n<=NN&&cap>=1&&cap<=CAP); std::LEN=n; std::pos=0; std::st=0;
 for(int i=0;i<NN;i++){ unsigned char c; std::T[i]=c; }
 spec(cap); char buf[CAP+3]; for(int i=0;i<CAP+3;i++) buf[i]=77;
#if MODE==0
 KDL::EatWord(is,"[]",buf,cap);
 for(int i=0;i<CAP+3;i++) if(i>=cap) __CPROVER_assert(buf[i]==77,"written past the buffer");
 for(int i=0;i<CAP;i++){ if(R_ok&&i<R_len) __CPROVER_assert(buf[i]==R_w[i],"word read differs"); if(R_ok&&i==R_len) __CPROVER_assert(buf[i]==0,"word not terminated"); }
#elif MODE==1
 KDL::Eat(is,(int)';');
#else
 KDL::EatEnd(is,(int)';');
#endif
 __CPROVER_assert(R_ok,"malformed text is accepted");
 if(R_ok&&usable()) __CPROVER_assert(is.get()==at(R_pos),"next character differs");
}
#else
int main(int argc,char**argv){ int cap=atoi(argv[1]); for(const char*p=argv[2];p[0]&&p[1];p+=2){ char h[3]={p[0],p[1],0}; TX+=(char)strtol(h,0,16); }
 spec(cap); std::istringstream is(TX); std::unique_ptr<char[]> buf(new char[cap]); bool thrown=false;
 try{ if(MODE==0) KDL::EatWord(is,"[]",buf.get(),cap); else if(MODE==1) KDL::Eat(is,(int)';'); else KDL::EatEnd(is,(int)';'); } catch(KDL::Error&){ thrown=true; }
 if(thrown) CHECK(!R_ok,"well formed text is refused"); else { CHECK(R_ok,"malformed text is accepted"); if(R_ok&&MODE==0){ CHECK(!memcmp(buf.get(),R_w,R_len),"word read differs"); CHECK(buf[R_len]==0,"word not terminated"); } if(R_ok&&usable()) CHECK(is.get()==at(R_pos),"next character differs"); }
 printf("DONE\n"); return fails?1:0; }
#endif
