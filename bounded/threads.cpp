// C07/C19/C20/C21 bounded stand-in: real threads through the locking API (built with ThreadSanitizer).
#include "common.hpp"
#include <gtl/phmap.hpp>
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#include <gtl/intrusive.hpp>
#include <thread>
#include <atomic>
using namespace bd; constexpr int NTH=4;
template<class F> void par(F f){ std::vector<std::thread> t; for(int i=0;i<NTH;++i) t.emplace_back([=]{ f(i); }); for(auto& x: t) x.join(); }
template<class M> using PM=gtl::parallel_flat_hash_map<int,long,std::hash<int>,std::equal_to<int>,std::allocator<std::pair<const int,long>>,3,M>;
template<class M> void maps(const char* n,int rounds){ begin(n); for(int r=0;r<rounds;++r){ newcase(); PM<M> c; std::atomic<long> ins{0},er{0},add{0}; uint64_t sd=seed()*100+r; par([&](int id){ Rng g(sd*10+id); for(int i=0;i<2500;++i){ int k=(int)g.below(40); switch(g.below(14)){ case 0: case 1: c.lazy_emplace_l(k,[&](auto& x){ ++x.second; },[&](const auto& ct){ ct(k,1L); ++ins; }); ++add; break; case 2: if(c.try_emplace_l(k,[&](auto& x){ ++x.second; },1L)) ++ins; ++add; break; case 3: if(c.modify_if(k,[](auto& x){ ++x.second; })) ++add; break; case 4: { long got=0; if(c.erase_if(k,[&](auto& x){ got=x.second; return true; })){ ++er; add-=got; } } break; case 5: { long got=0; bool b=c.erase_if(k,[&](auto& x){ return (x.second&3)==0 && (got=x.second,true); }); if(b){ ++er; add-=got; } } break; case 6: c.if_contains(k,[](const auto& x){ volatile long q=x.second; (void)q; }); break; case 7: c.contains(k); break; case 8: c.for_each([](const auto& x){ volatile long q=x.second; (void)q; }); break; case 9: c.count(k); break; case 10: c.with_submap(g.below(8),[](const auto& s){ volatile size_t z=s.size(); (void)z; }); break; case 11: c.rehash(0); break; case 12: c.bucket_count(); break; case 13: c.for_each_m([&](auto& x){ if(x.first==k){ ++x.second; ++add; } }); break; } } }); long sum=0; size_t n=0; std::set<int> ks; for(auto& x: c){ sum+=x.second; ++n; ks.insert(x.first); } CHECK(n==ks.size()&&n==c.size(),"no entry is duplicated"); CHECK((long)n==ins-er,"insertions minus erasures is what is left"); CHECK(sum==add,"no update is lost"); } done();
  begin("merge/clear under threads"); for(int r=0;r<rounds;++r){ newcase(); PM<M> a,b; for(int i=0;i<200;++i) b.emplace(i,1L); par([&](int id){ if(id==0) a.merge(b); else for(int i=0;i<200;++i){ a.insert_or_assign(i,2L); b.contains(i); a.erase(i+1000); } }); CHECK(a.size()==200,"all keys"); CHECK(a.size()+b.size()>=200,"nothing lost"); } done(); }
struct Obj : gtl::intrusive_ref_counter<Obj,gtl::thread_safe_counter> { static std::atomic<int> live; int v=7; Obj(){ ++live; } ~Obj(){ v=0; --live; } }; std::atomic<int> Obj::live{0};
int main(){ int f=thorough()?8:1; 
  if(VF_PART==7){ maps<std::mutex>("threads/mutex",30*f); maps<std::shared_mutex>("threads/shared_mutex",30*f); }
  if(VF_PART==21){ begin("threads/intrusive"); for(int r=0;r<40*f;++r){ newcase(); gtl::intrusive_ptr<Obj> root(new Obj); par([&](int id){ for(int i=0;i<400;++i){ gtl::intrusive_ptr<Obj> a=root; gtl::intrusive_ptr<Obj> b(std::move(a)); gtl::intrusive_ptr<Obj> c2; c2=b; b.reset(); CHECK(c2->v==7,"object alive while owned"); } }); CHECK(root->use_count()==1,"count"); std::vector<gtl::intrusive_ptr<Obj>> vs(NTH,root); root.reset(); par([&](int id){ CHECK(vs[id]->v==7,"alive"); vs[id].reset(); }); CHECK(Obj::live==0,"destroyed exactly once by the last owner"); } done(); }
  if(VF_PART==19){ begin("threads/lru"); for(int r=0;r<15*f;++r){ newcase(); gtl::lru_cache_impl<int,int,2> c(16); uint64_t sd=seed()+r; par([&](int id){ Rng g(sd*8+id); for(int i=0;i<1500;++i){ int k=(int)g.below(64); if(g.one_in(2)) c.insert(k,k*3); else if(g.one_in(20)) c.exists(k); else { auto v=c.get(k); if(v) CHECK(*v==k*3,"value of another key"); } } }); } done(); }
  if(VF_PART==20){ begin("threads/memoize"); for(int r=0;r<15*f;++r){ newcase(); auto fn=[](int a,int b){ return a*1000+b; }; gtl::mt_memoize<decltype(fn)> m(std::move(fn)); uint64_t sd=seed()+r; par([&](int id){ Rng g(sd*8+id); for(int i=0;i<1200;++i){ int a=(int)g.below(12),b=(int)g.below(12); CHECK(m(a,b)==a*1000+b,"memoized value"); } }); } done();
    begin("threads/memoize_lru"); for(int r=0;r<15*f;++r){ newcase(); auto fn=[](int a){ return a*7; }; gtl::mt_memoize_lru<decltype(fn)> m(std::move(fn),256); uint64_t sd=seed()+r; par([&](int id){ Rng g(sd*8+id); for(int i=0;i<1200;++i){ int a=(int)g.below(900); CHECK(m(a)==a*7,"memoized value"); } }); } done(); }
  return 0; }
