// Bounded stand-in for C19: lru_cache against a reference recency list per shard.
#include "common.hpp"
#include <gtl/lru_cache.hpp>
#include <list>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <atomic>
using namespace bd;
struct HConst { size_t operator()(int) const { return 3; } };
template<class C> struct Ref { size_t lim; std::map<size_t,std::list<std::pair<int,std::string>>> sh; C& c; size_t shard(int k){ return c._cache.subidx(c._cache.hash(k)); }
  size_t size(){ size_t n=0; for(auto& s: sh) n+=s.second.size(); return n; }
  auto find(int k,std::list<std::pair<int,std::string>>*& l){ l=&sh[shard(k)]; for(auto i=l->begin();i!=l->end();++i) if(i->first==k) return i; return l->end(); }
  void insert(int k,std::string v){ std::list<std::pair<int,std::string>>* l; auto i=find(k,l); if(i!=l->end()) l->erase(i); l->push_front({k,v}); if(l->size()>lim) l->pop_back(); }
  std::optional<std::string> get(int k){ std::list<std::pair<int,std::string>>* l; auto i=find(k,l); if(i==l->end()) return {}; auto p=*i; l->erase(i); l->push_front(p); return p.second; }
  bool has(int k){ std::list<std::pair<int,std::string>>* l; auto i=find(k,l); return i!=l->end(); } };
template<class C> void run(const char* name,std::vector<size_t> limits,int steps,int universe){ begin(name);
  for(size_t lim: limits) for(int s=0;s<3;++s){ newcase(); Rng r(seed()*911+lim*7+s); size_t total=lim*C::num_submaps; C c(total); Ref<C> m{lim,{},c}; opf("limit %zu per shard",lim);
    for(int i=0;i<steps;++i){ ++ncases(); int k=(int)r.below(universe); switch(r.below(11)){ case 0: case 1: case 2: case 3: case 4: { std::string v="value-long-enough-to-be-on-the-heap-"+std::to_string(i); opf("insert %d (%d)",k,i); if(r.one_in(2)) c.insert(k,v); else c.insert(k,std::string(v)); m.insert(k,v); break; } case 5: case 6: case 7: { opf("get %d",k); auto a=c.get(k); auto b=m.get(k); CHECK(a.has_value()==b.has_value(),"get finds exactly the cached keys"); CHECK(!a||*a==*b,"get returns the value last stored"); break; } case 8: case 9: { opf("exists %d",k); CHECK(c.exists(k)==m.has(k),"exists"); break; } case 10: if(r.one_in(25)){ opf("clear"); c.clear(); m.sh.clear(); CHECK(c.size()==0,"cleared"); } }
      CHECK(c.size()==m.size(),"size is exact"); for(size_t q=0;q<C::num_submaps;++q){ auto& in=c._cache.get_inner(q); CHECK(in.aux_.size()==in.set_.size(),"recency list and index agree"); CHECK(in.aux_.size()<=lim,"limit per shard"); }
      if(i%8==0) for(int q=0;q<universe;++q) CHECK(c.exists(q)==m.has(q),"the least recently used entry is the one dropped"); } }
  done(); }
// order of use fully enumerated for small limits
static void exhaustive(){ begin("exhaustive/limit3/len6"); using C=gtl::lru_cache<int,int>; for(int code=0; code<8*8*8*8*8*8; ++code){ newcase(); C c(3); std::list<std::pair<int,int>> m; int x=code; for(int i=0;i<6;++i){ int o=x&7; x>>=3; int k=o&3; if(o<4){ opf("insert %d->%d",k,i); c.insert(k,i); m.remove_if([&](auto& p){ return p.first==k; }); m.push_front({k,i}); if(m.size()>3) m.pop_back(); } else { opf("get %d",k); auto g=c.get(k); auto it=m.begin(); while(it!=m.end()&&it->first!=k) ++it; CHECK(g.has_value()==(it!=m.end()),"hit or miss"); if(g){ CHECK(*g==it->second,"value"); m.splice(m.begin(),m,it); } } } for(int k=0;k<4;++k){ bool p=false; for(auto& q:m) p|=q.first==k; CHECK(c.exists(k)==p,"cached set"); } CHECK(c.size()==m.size(),"size"); } done(); }
static void threads(){ begin("threads"); newcase(); using C=gtl::mt_lru_cache<int,int>; C c(64*64); std::atomic<bool> bad{false}; std::vector<std::thread> t; for(int n=0;n<4;++n) t.emplace_back([&,n]{ Rng r(n); for(int i=0;i<3000;++i){ int k=(int)r.below(9000); if(r.one_in(2)) c.insert(k,k*3); else { auto g=c.get(k); if(g && *g!=k*3) bad=true; } } }); for(auto& x:t) x.join(); CHECK(!bad,"values under concurrency"); size_t n=0; for(size_t q=0;q<C::num_submaps;++q){ auto& in=c._cache.get_inner(q); CHECK(in.aux_.size()==in.set_.size() && in.aux_.size()<=64,"shards consistent"); n+=in.aux_.size(); for(auto& e: in.aux_) CHECK(in.set_.contains(e.first) && in.set_.find(e.first)->second->first==e.first,"index entries point at their list entries"); } CHECK(c.size()==n,"size"); ncases()+=12000; done(); }
int main(){ int k=thorough()?10:1; run<gtl::lru_cache<int,std::string>>("lru/1 shard",{3,4,7,20},700*k,26); run<gtl::lru_cache<int,std::string,HConst>>("lru/const hash",{3,5},400*k,12); run<gtl::lru_cache_impl<int,std::string,2,gtl::Hash<int>,std::equal_to<int>,std::mutex>>("lru/4 shards",{3,4},700*k,60); run<gtl::lru_cache_impl<int,std::string,3,gtl::Hash<int>,std::equal_to<int>,std::shared_mutex>>("lru/8 shards shared",{3,6},500*k,90); exhaustive(); threads(); return 0; }
