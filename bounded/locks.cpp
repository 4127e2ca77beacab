// C07 bounded stand-in: the real parallel containers with an instrumented mutex.  Outside of the exclusive lock no shard changes,
// lookups and callbacks happen under the lock, every lock is released, and the unlock/lock gap of erase is exercised.
#include "common.hpp"
#include <mutex>
#include <shared_mutex>
#include <functional>
#include <thread>
#include <atomic>
struct IM; static std::function<void(IM*,int)> hook; // 1: exclusive about to be taken, 2: taken, 3: about to be released, 4/5/6: shared
struct IM { bool x=false; int s=0; IM(){} IM(const IM&)=delete; void lock(){ if(hook) hook(this,1); if(x||s) bd::fail("a lock is taken that this thread already holds",__FILE__,__LINE__); x=true; if(hook) hook(this,2); } bool try_lock(){ if(x||s) return false; lock(); return true; } void unlock(){ if(!x) bd::fail("unlock() of a mutex that is not held exclusively",__FILE__,__LINE__); if(hook) hook(this,3); x=false; }
  void lock_shared(){ if(hook) hook(this,4); if(x||s) bd::fail("a shared lock is taken that this thread already holds",__FILE__,__LINE__); ++s; if(hook) hook(this,5); } bool try_lock_shared(){ lock_shared(); return true; } void unlock_shared(){ if(s!=1) bd::fail("unlock_shared() of a mutex that is not held shared",__FILE__,__LINE__); if(hook) hook(this,6); --s; } };
struct IX { IM m; void lock(){ m.lock(); } void unlock(){ m.unlock(); } bool try_lock(){ return m.try_lock(); } };
namespace std { using vf_shared_mutex= ::IM; }
#define shared_mutex vf_shared_mutex
#include <gtl/phmap.hpp>
#undef shared_mutex
#include <gtl/phmap_dump.hpp>
using namespace bd; using namespace gtl;
static std::function<void(int)> on_eq; struct H { size_t operator()(int k) const { return (size_t)k*0x9E3779B97F4A7C15ull; } }; struct E { bool operator()(int a,int b) const { if(on_eq) on_eq(b); return a==b; } };
static IM* mx(IM& m){ return &m; } static IM* mx(IX& m){ return &m.m; }
template<class M> struct T { using C=parallel_flat_hash_map<int,long,H,E,std::allocator<std::pair<const int,long>>,2,M>; using Inner=typename C::Inner;
  struct Snap { const void* p; size_t n,cap,gl; uint64_t h; bool operator==(const Snap& o) const { return p==o.p&&n==o.n&&cap==o.cap&&gl==o.gl&&h==o.h; } };
  static Snap snap(C& c,size_t i){ auto& s=c.sets_[i].set_; Snap r{s.ctrl_,s.size_,s.capacity_,s.growth_left(),0}; uint64_t h=14695981039346656037ull; auto mixin=[&](uint64_t v){ h=(h^v)*1099511628211ull; }; for(size_t k=0;k<s.capacity_;++k){ mixin((uint8_t)s.ctrl_[k]); if(s.ctrl_[k]>=0){ mixin((uint64_t)s.slots_[k].value.first); mixin((uint64_t)s.slots_[k].value.second); } } r.h=h; return r; }
  C c, d; std::vector<Snap> last[2]; bool inop=false; int inject=-1, inject_mode=0, nlocks=0; bool strict_eq=true;
  C& of(int w){ return w?d:c; }
  bool locate(IM* m,int& w,size_t& i){ for(w=0;w<2;++w) for(i=0;i<4;++i) if(mx(of(w).sets_[i])==m) return true; return false; }
  void settle(){ for(int w=0;w<2;++w){ last[w].clear(); for(size_t i=0;i<4;++i) last[w].push_back(snap(of(w),i)); } }
  void check_idle(){ for(int w=0;w<2;++w) for(size_t i=0;i<4;++i){ IM* m=mx(of(w).sets_[i]); CHECK(!m->x&&m->s==0,"every lock taken is released"); CHECK(snap(of(w),i)==last[w][i],"a shard was modified outside of its exclusive lock"); } }
  T(){ settle(); hook=[this](IM* m,int e){ int w; size_t i; if(!inop||!locate(m,w,i)) return; ++nlocks; Snap s=snap(of(w),i); switch(e){ case 1: case 4: CHECK(s==last[w][i],"a shard was modified outside of its exclusive lock"); if(e==1&&inject>=0&&nlocks>1){ int k=inject; inject=-1; inop=false; auto sv=on_eq; on_eq=nullptr; auto& set=c.sets_[C::subidx(c.hash(k))].set_; if(inject_mode==0) set.erase(k); else if(inject_mode==1){ set.erase(k); for(int q=0;q<40;++q){ int z=1000+q; if(C::subidx(c.hash(z))==C::subidx(c.hash(k))) set.emplace(z,z); } } else set.find(k)->second=4242; on_eq=sv; inop=true; last[w][i]=snap(of(w),i); } break; case 3: last[w][i]=s; break; case 6: CHECK(s==last[w][i],"a shard was modified under a shared lock"); break; } };
    on_eq=[this](int k){ if(!inop||!strict_eq) return; size_t i=C::subidx(c.hash(k)); bool h=false; for(int w=0;w<2;++w){ IM* m=mx(of(w).sets_[i]); h|=m->x||m->s; } CHECK(h,"a shard is searched without its lock"); }; }
  ~T(){ hook=nullptr; on_eq=nullptr; }
  bool xheld(int k){ return mx(c.sets_[C::subidx(c.hash(k))])->x; } bool rheld(int k){ IM* m=mx(c.sets_[C::subidx(c.hash(k))]); return m->x||m->s; }
  template<class F> void run(const char* n,int k,F f){ opf("%s %d",n,k); nlocks=0; inop=true; f(); inop=false; inject=-1; check_idle(); ++ncases(); }
  void all(Rng& g,std::map<int,long>& m){ int k=(int)g.below(60); long v=(long)g.below(1000); bool p=m.count(k)>0; size_t h=c.hash(k);
    switch(g.below(33)){
    case 0: run("insert",k,[&]{ auto r=c.insert(std::make_pair(k,v)); CHECK(r.second==!p,"insert"); }); m.emplace(k,v); break;
    case 1: run("emplace",k,[&]{ auto r=c.emplace(k,v); CHECK(r.second==!p,"emplace"); }); m.emplace(k,v); break;
    case 2: run("try_emplace",k,[&]{ auto r=c.try_emplace(k,v); CHECK(r.second==!p,"try_emplace"); }); m.emplace(k,v); break;
    case 3: run("insert_or_assign",k,[&]{ auto r=c.insert_or_assign(k,v); CHECK(r.second==!p,"insert_or_assign"); }); m[k]=v; break;
    case 4: run("try_emplace_l",k,[&]{ bool b=c.try_emplace_l(k,[&](auto& x){ CHECK(xheld(k),"callback runs under the exclusive lock"); x.second=v+1; },v); CHECK(b==!p,"try_emplace_l"); }); m[k]=p?v+1:v; break;
    case 5: run("lazy_emplace_l",k,[&]{ bool b=c.lazy_emplace_l(k,[&](auto& x){ CHECK(xheld(k),"callback runs under the exclusive lock"); x.second=v+1; },[&](const auto& ct){ CHECK(xheld(k),"callback runs under the exclusive lock"); ct(k,v); }); CHECK(b==!p,"lazy_emplace_l"); }); m[k]=p?v+1:v; break;
    case 6: run("lazy_emplace",k,[&]{ c.lazy_emplace(k,[&](const auto& ct){ CHECK(xheld(k),"callback runs under the exclusive lock"); ct(k,v); }); }); m.emplace(k,v); break;
    case 7: run("modify_if",k,[&]{ bool b=c.modify_if(k,[&](auto& x){ CHECK(xheld(k),"callback runs under the exclusive lock"); x.second=v; }); CHECK(b==p,"modify_if"); }); if(p) m[k]=v; break;
    case 8: run("if_contains",k,[&]{ bool b=c.if_contains(k,[&](const auto& x){ CHECK(rheld(k),"callback runs under the lock"); CHECK(x.second==m[k],"value"); }); CHECK(b==p,"if_contains"); }); break;
    case 9: case 10: run("erase",k,[&]{ CHECK(c.erase(k)==(size_t)p,"erase"); }); m.erase(k); break;
    case 11: run("erase_if",k,[&]{ bool b=c.erase_if(k,[&](auto& x){ CHECK(xheld(k),"predicate runs under the exclusive lock"); return v&1; }); CHECK(b==(p&&(v&1)),"erase_if"); }); if(v&1) m.erase(k); break;
    case 12: run("find",k,[&]{ CHECK((c.find(k)!=c.end())==p,"find"); }); break;
    case 13: run("contains",k,[&]{ CHECK(c.contains(k)==p&&c.count(k)==(size_t)p&&c.contains(k,h)==p,"contains"); }); break;
    case 14: run("index",k,[&]{ long& r=c[k]; CHECK(p||r==0,"operator[]"); }); m.emplace(k,0); break;
    case 15: run("for_each",k,[&]{ size_t n=0; c.for_each([&](const auto& x){ CHECK(rheld(x.first),"callback runs under the lock"); ++n; }); CHECK(n==m.size(),"for_each"); }); break;
    case 16: run("for_each_m",k,[&]{ c.for_each_m([&](auto& x){ CHECK(xheld(x.first),"callback runs under the exclusive lock"); x.second+=3; }); }); for(auto& x: m) x.second+=3; break;
    case 17: { size_t i=g.below(4); run("with_submap",(int)i,[&]{ c.with_submap(i,[&](const auto& s){ IM* q=mx(c.sets_[i]); CHECK(q->x||q->s,"callback runs under the lock"); }); c.with_submap_m(i,[&](auto& s){ CHECK(mx(c.sets_[i])->x,"callback runs under the exclusive lock"); if(!s.empty()) s.begin()->second=7; }); }); m.clear(); for(auto& x: c) m[x.first]=x.second; } break;
    case 18: if(g.one_in(6)){ run("clear",k,[&]{ c.clear(); }); m.clear(); } else { size_t i=g.below(4); if(g.one_in(4)){ run("clear shard",(int)i,[&]{ c.clear(i); }); for(auto q=m.begin();q!=m.end();) if(C::subidx(c.hash(q->first))==i) q=m.erase(q); else ++q; } } break;
    case 19: run("merge",k,[&]{ strict_eq=false; c.merge(d); strict_eq=true; }); for(auto& x: c) if(!m.count(x.first)) m[x.first]=x.second; break;
    case 20: { std::map<int,long> dm; for(auto& x: d) dm[x.first]=x.second; run("swap",k,[&]{ c.swap(d); }); m=dm; } break;
    case 21: run("rehash",k,[&]{ c.rehash(g.below(300)); }); break;
    case 22: run("reserve",k,[&]{ c.reserve(g.below(200)); }); break;
    case 23: run("==",k,[&]{ strict_eq=false; bool b=c==d; strict_eq=true; (void)b; }); break;
    case 24: run("bucket_count",k,[&]{ c.bucket_count(); c.prefetch(k); }); break;
    case 25: { inop=false; for(int q=0;q<3;++q) d.emplace((int)g.below(60),1L); settle(); } break;
    case 26: run("emplace_with_hash",k,[&]{ CHECK(c.emplace_with_hash(h,k,v).second==!p,"emplace_with_hash"); }); m.emplace(k,v); break;
    case 27: run("try_emplace_p",k,[&]{ CHECK(c.try_emplace_p(k,v).second==!p,"try_emplace_p"); }); m.emplace(k,v); break;
    case 28: if(!p){ run("emplace_single",k,[&]{ c.emplace_single(k,[&](const auto& ct){ CHECK(xheld(k),"callback runs under the exclusive lock"); ct(k,v); }); }); m.emplace(k,v); } break;
    case 29: { inop=false; auto nh=c.extract(k); settle(); run("insert node",k,[&]{ auto r=c.insert(std::move(nh)); CHECK(r.inserted==p,"node"); }); } break;
    case 30: run("emplace piecewise",k,[&]{ CHECK(c.emplace(std::piecewise_construct,std::forward_as_tuple(k),std::forward_as_tuple(v)).second==!p,"emplace"); }); m.emplace(k,v); break;
    case 31: run("self",k,[&]{ strict_eq=false; CHECK(c==c,"a container equals itself"); c.swap(c); strict_eq=true; }); break;
    case 32: run("hints",k,[&]{ c.insert(c.cend(),std::make_pair(k,v)); c.try_emplace(c.cend(),k,v); c.emplace_hint(c.cend(),k,v); }); m.emplace(k,v); break; }
    for(auto& x: m){ auto it=c.find(x.first); CHECK(it!=c.end()&&it->second==x.second,"contents"); } CHECK(c.size()==m.size(),"size"); }
  // another thread removes (or changes) the key in the gap in which erase holds no lock
  void gap(const char* nm){ begin(nm); for(int mode=0;mode<3;++mode) for(int k=0;k<60;++k) for(int f=0;f<3;++f){ newcase(); opf("key %d, other thread %s in the gap",k,mode==0?"erases it":mode==1?"erases it and inserts others":"changes it"); inop=false; c.clear(); c.emplace(k,5L); for(int q=0;q<k%7;++q) c.emplace(q+100,1L); settle(); size_t n0=c.size(); inject=k; inject_mode=mode; nlocks=0; inop=true; size_t r; int calls=0; if(f==0) r=c.erase(k); else r=c.erase_if(k,[&](auto& x){ ++calls; CHECK(xheld(k),"predicate runs under the exclusive lock"); CHECK(x.first==k,"predicate sees the entry"); CHECK(mode==2? x.second==(inject<0?4242:5): x.second==5,"predicate sees the current value"); return f==1; }); inop=false; bool fired=inject<0; inject=-1; check_idle(); if(fired&&mode<2) CHECK(r==0&&calls==0,"erase reports an erasure although another thread removed the key"); else CHECK(r==(f!=2),"erase"); CHECK(c.contains(k)==(fired&&mode<2? false: f==2),"contents after erase"); (void)n0; } done(); }
};
template<class M> void go(const char* n,int seeds,int steps){ begin(n); for(int s=0;s<seeds;++s){ newcase(); Rng g(seed()*31+s); T<M> t; std::map<int,long> m; for(int i=0;i<steps;++i){ t.all(g,m); } } done(); }
int main(){ int f=thorough()?10:1; go<IM>("locks/shared_mutex",30*f,500); go<IX>("locks/mutex",30*f,500); { T<IM> t; t.gap("locks/erase gap, shared_mutex"); } { T<IX> t; t.gap("locks/erase gap, mutex"); } 
  begin("null mutex"); newcase(); { parallel_flat_hash_map<int,int> a; a[1]=2; CHECK(a.if_contains(1,[](auto&){}),"null mutex"); } done(); return 0; }
