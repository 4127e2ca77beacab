// Bounded stand-in for C20: memoizing wrappers against the plain function, with an evaluation counter.
#include "common.hpp"
#include <gtl/memoize.hpp>
#include <list>
#include <functional>
#include <algorithm>
#include <mutex>
#include <thread>
#include <atomic>
using namespace bd;
static std::map<std::tuple<int,int>,int> evals;
static long f2(int a,int b){ return (long)a*1000003L+b*17L-(a<b?5:0); }
static long counted(int a,int b){ ++evals[{a,b}]; return f2(a,b); }
static void plain(){ begin("memoize"); for(int s=0;s<4;++s){ newcase(); evals.clear(); Rng r(seed()+s); gtl::memoize<long(*)(int,int)> m(counted); std::set<std::pair<int,int>> cached; for(int i=0;i<1500;++i){ ++ncases(); int a=(int)r.below(12)-6,b=(int)r.below(12)-6; if(r.one_in(300)){ opf("clear"); m.clear(); cached.clear(); evals.clear(); CHECK(m.size()==0,"clear forgets everything"); } auto c=m.contains(a,b); CHECK(c.has_value()==(cached.count({a,b})>0),"contains reports exactly the cached results"); if(c) CHECK(*c==f2(a,b),"cached value"); opf("call %d %d",a,b); CHECK(m(a,b)==f2(a,b),"returns what the function returns"); cached.insert({a,b}); CHECK(m.size()==cached.size(),"size"); for(auto& e: evals) CHECK(e.second==1,"evaluated at most once per argument list"); } } done(); }
static std::function<unsigned long(unsigned)>* fibp; static int fibcalls;
static void recursive(){ begin("recursive"); for(int n=0;n<60;++n){ newcase(); fibcalls=0; std::function<unsigned long(unsigned)> self; auto fib=[&](unsigned k)->unsigned long{ ++fibcalls; return k<2?k:self(k-1)+self(k-2); }; gtl::memoize<decltype(fib)> m(fib); self=[&](unsigned k){ return m(k); }; unsigned long a=0,b=1; for(int i=0;i<n;++i){ unsigned long t=a+b; a=b; b=t; } CHECK(m((unsigned)n)==a,"recursive result"); CHECK(fibcalls<=n+2,"each argument evaluated once"); CHECK(m((unsigned)n)==a && fibcalls<=n+2,"second call uses the cache"); gtl::mt_memoize<decltype(fib),true> mm(fib); self=[&](unsigned k){ return mm(k); }; fibcalls=0; CHECK(mm((unsigned)n)==a && fibcalls<=n+2,"thread-safe recursive"); } done(); }
template<bool REC> static void threads(const char* g){ begin(g); newcase(); static std::atomic<int> cnt[400]; for(auto& c: cnt) c=0; auto f=[](int a)->std::string{ cnt[a]++; return std::string(30,'a'+a%26)+std::to_string(a); }; gtl::mt_memoize<decltype(f),REC> m(f); std::atomic<bool> bad{false}; std::vector<std::thread> t; for(int n=0;n<4;++n) t.emplace_back([&,n]{ Rng r(n); for(int i=0;i<4000;++i){ int a=(int)r.below(400); if(m(a)!=std::string(30,'a'+a%26)+std::to_string(a)) bad=true; } }); for(auto& x:t) x.join(); CHECK(!bad,"concurrent results"); if(!REC) for(auto& c: cnt) CHECK(c<=1,"evaluated once under concurrency"); ncases()+=16000; done(); }
static int ev1[4000]; static int g1(int a){ ++ev1[a]; return a*7+1; }
template<class C> static void lru(const char* name,size_t maxsz,int universe){ begin(name); for(int s=0;s<4;++s){ newcase(); memset(ev1,0,sizeof ev1); Rng r(seed()*3+s); C m(g1,maxsz); size_t lim=maxsz/C::num_submaps; std::map<size_t,std::list<int>> sh; // most recent first
    for(int i=0;i<1200;++i){ ++ncases(); if(r.one_in(250)){ opf("clear"); m.clear(); sh.clear(); CHECK(m.size()==0,"clear"); } int a=(int)r.below(universe); auto& l=sh[m._cache.subidx(m._cache.hash(std::tuple<int>(a)))]; auto it=std::find(l.begin(),l.end(),a); auto c=m.contains(a); if(c){ CHECK(*c==a*7+1,"cached value"); CHECK(it!=l.end(),"reports as cached only what was computed and is recent enough"); } int before=ev1[a]; opf("call %d",a); CHECK(m(a)==a*7+1,"returns what the function returns"); CHECK(ev1[a]==before+(c?0:1),"evaluates exactly when not cached"); if(it!=l.end()) l.erase(it); l.push_front(a); 
      // what is cached is a prefix of the recency order and never exceeds the limit
      size_t total=0; for(auto& q: sh){ size_t k=0; bool gone=false; for(int x: q.second){ bool h=m.contains(x).has_value(); if(h){ CHECK(!gone,"discards least recently used results first"); ++k; } else gone=true; } CHECK(k<=lim,"keeps no more than its limit"); CHECK(k+1>=std::min(lim,q.second.size()),"keeps results while the limit is not reached"); total+=k; } CHECK(m.size()==total,"size"); if(c) CHECK(m.contains(a).has_value(),"a used result stays cached"); } } done(); }
int main(){ plain(); recursive(); threads<false>("threads/non-recursive"); threads<true>("threads/recursive"); lru<gtl::memoize_lru<int(*)(int),0>>("lru/1 shard",5,12); lru<gtl::memoize_lru<int(*)(int),0>>("lru/1 shard/20",20,40); lru<gtl::memoize_lru<int(*)(int),2>>("lru/4 shards",24,60); lru<gtl::mt_memoize_lru<int(*)(int),1>>("lru/mt",16,40); return 0; }
