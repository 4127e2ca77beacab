// Shared helpers of the bounded native stand-ins.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
namespace bd {
inline std::deque<std::string>& hist(){ static std::deque<std::string> h; return h; }
inline const char*& grp(){ static const char* g="?"; return g; }
inline unsigned long long& ncases(){ static unsigned long long n=0; return n; }
inline unsigned long long& caseid(){ static unsigned long long n=0; return n; }
inline void op(std::string s){ auto& h=hist(); h.push_back(std::move(s)); if(h.size()>60) h.pop_front(); }
template<class... A> inline void opf(const char* f, A... a){ char b[200]; snprintf(b,sizeof b,f,a...); op(b); }
inline void dump(){ fprintf(stdout,"  group %s case %llu, last operations (oldest first):\n",grp(),caseid()); for(auto& s: hist()) fprintf(stdout,"    %s\n",s.c_str()); fflush(stdout); }
[[noreturn]] inline void fail(const char* what,const char* file,int line){ printf("FAIL %s: %s (%s:%d)\n",grp(),what,file,line); dump(); _Exit(1); }
inline void on_alarm(int){ const char m[]="FAIL operation did not terminate\n"; if(write(1,m,sizeof m-1)){}; dump(); _exit(1); }
inline void watchdog(int s){ signal(SIGALRM,on_alarm); alarm(s); }
inline void on_crash(int sig){ printf("FAIL %s: crashed with signal %d\n",grp(),sig); dump(); _exit(1); }
inline void begin(const char* g){ grp()=g; ncases()=0; hist().clear(); watchdog(60); }
inline void newcase(){ ++ncases(); ++caseid(); hist().clear(); alarm(60); }
inline void done(){ printf("CASES %s %llu\n",grp(),ncases()); fflush(stdout); alarm(0); }
inline bool thorough(){ const char* t=getenv("VF_TIER"); return t && !strcmp(t,"thorough"); }
struct Rng { uint64_t s; explicit Rng(uint64_t x):s(x*0x9E3779B97F4A7C15ull+0x1234567){ for(int i=0;i<4;++i) next(); } uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);} size_t below(size_t n){ return n? next()%n:0; } bool one_in(size_t n){ return below(n)==0; } };
inline uint64_t seed(){ const char* s=getenv("VF_SEED"); return s? strtoull(s,0,10):1; }
}
#define CHECK(c,what) do{ if(!(c)) bd::fail(what " [" #c "]",__FILE__,__LINE__); }while(0)
// an element that checks its own lifetime
namespace bd {
struct Counts { long live=0, ctor=0, dtor=0, copies=0, moves=0; };
inline Counts& cnt(){ static Counts c; return c; }
inline long& throw_at(){ static long t=-1; return t; }     // countdown to a throwing construction (-1: never)
struct Boom {};
inline void maybe_throw(){ if(throw_at()>=0 && throw_at()--==0) throw Boom(); }
struct Tr { // address-checked, heap-owning
  uint64_t magic; const Tr* self; int v; int* heap;
  static constexpr uint64_t M=0xA11CE5EEDull, D=0xDEADDEADull;
  void born(int x){ magic=M; self=this; v=x; heap=new int(x); ++cnt().live; ++cnt().ctor; }
  Tr(int x=0){ maybe_throw(); born(x); } Tr(int,int){ }
  Tr(const Tr& o){ o.ok(); maybe_throw(); born(o.v); ++cnt().copies; }
  Tr(Tr&& o){ o.ok(); maybe_throw(); born(o.v); o.v=-1; *o.heap=-1; ++cnt().moves; }
  Tr& operator=(const Tr& o){ ok(); o.ok(); v=o.v; *heap=o.v; return *this; }
  Tr& operator=(Tr&& o){ ok(); o.ok(); int x=o.v; if(this!=&o){ o.v=-1; *o.heap=-1; } v=x; *heap=x; return *this; }
  ~Tr(){ ok(); magic=D; delete heap; heap=nullptr; --cnt().live; ++cnt().dtor; }
  void ok() const { if(magic!=M) fail(magic==D?"element used or destroyed after its destruction":"element was never constructed",__FILE__,__LINE__); if(self!=this) fail("element was moved bytewise although not relocatable",__FILE__,__LINE__); if(*heap!=v) fail("element contents corrupted",__FILE__,__LINE__); }
  bool operator==(const Tr& o) const { ok(); o.ok(); return v==o.v; } bool operator!=(const Tr& o) const { return !(*this==o); }
  bool operator<(const Tr& o) const { ok(); o.ok(); return v<o.v; }
};
}
