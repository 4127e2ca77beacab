// Bounded stand-in for C06: every operation of the parallel containers compared with std::map, for N = 0..6 (1..64 shards).
#include "hash_model.hpp"
#include <mutex>
#include <shared_mutex>
template<class T> using SA=std::allocator<T>;
template<size_t N,class H,class M=std::mutex> using PFS=gtl::parallel_flat_hash_set<int,H,std::equal_to<int>,SA<int>,N,M>;
template<size_t N,class H,class M=std::mutex> using PFM=gtl::parallel_flat_hash_map<int,Tr,H,std::equal_to<int>,SA<std::pair<const int,Tr>>,N,M>;
template<size_t N,class H,class M=std::mutex> using PNS=gtl::parallel_node_hash_set<int,H,std::equal_to<int>,SA<int>,N,M>;
template<size_t N,class H,class M=std::mutex> using PNM=gtl::parallel_node_hash_map<int,Tr,H,std::equal_to<int>,SA<std::pair<const int,Tr>>,N,M>;
// spreads over the shard-selecting bits
struct HShard { size_t operator()(int k) const { return ((size_t)k*0x9E3779B1ull)<<3; } };
template<class C> void shard_check(C& c,const Model& m){ // each key lives in exactly one shard, the one its hash selects
  std::map<int,int> where; size_t total=0;
  for(size_t i=0;i<c.subcnt();++i) c.with_submap(i,[&](const auto& s){ total+=s.size(); for(auto& x: s){ int k; if constexpr(is_map<C>::value) k=x.first; else k=x; CHECK(where.emplace(k,(int)i).second,"a key lives in one shard only"); CHECK(c.subidx(c.hash(k))==i,"a key lives in the shard its hash selects"); } });
  CHECK(total==m.size() && where.size()==m.size(),"shards together hold all entries");
  size_t n=0; std::set<int> seen; c.for_each([&](const auto& x){ ++n; if constexpr(is_map<C>::value){ CHECK(m.count(x.first) && m.at(x.first)==x.second.v,"for_each entry"); seen.insert(x.first);} else seen.insert(x); }); CHECK(n==m.size()&&seen.size()==n,"for_each visits every entry once");
}
template<class C> void pstep(C& c,Model& m,Rng& r){ // the parallel-only API
  constexpr bool MAP=is_map<C>::value; int k=(int)r.below(U); int v=(int)r.below(1000); bool p=m.count(k)>0; size_t h=c.hash(k);
  switch(r.below(MAP?19:12)){
  case 0: { opf("if_contains %d",k); int n=0; bool b=c.if_contains(k,[&](const auto& x){ ++n; if constexpr(MAP) CHECK(x.first==k && x.second.v==m[k],"callback sees the entry"); else CHECK(x==k,"callback sees the entry"); }); CHECK(b==p && n==(int)p,"if_contains"); break; }
  case 1: { opf("if_contains_unsafe %d",k); int n=0; bool b=c.if_contains_unsafe(k,[&](const auto& x){ ++n; }); CHECK(b==p && n==(int)p,"if_contains_unsafe"); break; }
  case 2: { opf("modify_if %d",k); int n=0; bool b=c.modify_if(k,[&](auto& x){ ++n; if constexpr(MAP) x.second=Tr(v); }); CHECK(b==p && n==(int)p,"modify_if"); if(p && MAP) m[k]=v; break; }
  case 3: { opf("erase_if %d true",k); int n=0; bool b=c.erase_if(k,[&](auto& x){ ++n; return true; }); CHECK(b==p && n==(int)p,"erase_if reports the erasure"); m.erase(k); break; }
  case 4: { opf("erase_if %d false",k); int n=0; bool b=c.erase_if(k,[&](auto& x){ ++n; if constexpr(MAP) x.second=Tr(v); return false; }); CHECK(!b && n==(int)p,"erase_if keeps the entry when refused"); if(p&&MAP) m[k]=v; break; }
  case 5: { opf("lazy_emplace_l %d->%d",k,v); int ne=0,nc=0; bool b=c.lazy_emplace_l(k,[&](auto& x){ ++ne; if constexpr(MAP) x.second=Tr(v+1); },[&](const auto& ct){ ++nc; if constexpr(MAP) ct(k,v); else ct(k); }); CHECK(b==!p && ne==(int)p && nc==(int)!p,"lazy_emplace_l"); m[k]=MAP?(p?v+1:v):0; break; }
  case 6: { opf("for_each_m"); size_t n=0; c.for_each_m([&](auto& x){ ++n; if constexpr(MAP) x.second=Tr(x.second.v+1); }); CHECK(n==m.size(),"for_each_m"); if(MAP) for(auto& x:m) ++x.second; break; }
  case 7: { size_t i=r.below(c.subcnt()); opf("clear shard %zu",i); c.clear(i); for(auto q=m.begin();q!=m.end();) if(c.subidx(c.hash(q->first))==i) q=m.erase(q); else ++q; break; }
  case 8: { opf("emplace_with_hash %d->%d",k,v); if constexpr(MAP){ auto q=c.emplace_with_hash(h,k,v); CHECK(q.second==!p && q.first->first==k,"emplace_with_hash"); if(!p) m[k]=v; } else { auto q=c.emplace_with_hash(h,k); CHECK(q.second==!p && *q.first==k,"emplace_with_hash"); m[k]=0; } break; }
  case 9: { opf("lazy_emplace_with_hash %d->%d",k,v); auto it=c.lazy_emplace_with_hash(k,h,[&](const auto& ct){ if constexpr(MAP) ct(k,v); else ct(k); }); CHECK(K(c,it)==k,"lazy_emplace_with_hash"); if(!p) m[k]=MAP?v:0; break; }
  case 10: { opf("with_submap_m erase"); size_t i=r.below(c.subcnt()); c.with_submap_m(i,[&](auto& s){ if(!s.empty()){ int kk; if constexpr(MAP) kk=s.begin()->first; else kk=*s.begin(); s.erase(kk); m.erase(kk); } }); break; }
  case 11: { if(!p){ opf("emplace_single %d->%d",k,v); if(r.one_in(2)) c.emplace_single_with_hash(k,h,[&](const auto& ct){ if constexpr(MAP) ct(k,v); else ct(k); }); else c.emplace_single(k,[&](const auto& ct){ if constexpr(MAP) ct(k,v); else ct(k); }); m[k]=MAP?v:0; } break; }
  default: if constexpr(MAP) switch(r.below(7)){
    case 0: { opf("try_emplace_l %d->%d",k,v); int n=0; bool b=c.try_emplace_l(k,[&](auto& x){ ++n; x.second=Tr(v+2); },v); CHECK(b==!p && n==(int)p,"try_emplace_l"); m[k]=p?v+2:v; break; }
    case 1: { opf("try_emplace_p %d->%d",k,v); auto q=c.try_emplace_p(k,v); CHECK(q.second==!p && q.first->first==k && q.first->second.v==(p?m[k]:v),"try_emplace_p"); if(!p) m[k]=v; break; }
    case 2: { opf("try_emplace_with_hash %d->%d",k,v); auto q=c.try_emplace_with_hash(h,k,v); CHECK(q.second==!p && q.first->first==k,"try_emplace_with_hash"); if(!p) m[k]=v; break; }
    case 3: { opf("insert_or_assign const %d->%d",k,v); const Tr t(v); const int kk=k; auto q=c.insert_or_assign(kk,t); CHECK(q.second==!p && q.first->second.v==v,"insert_or_assign"); m[k]=v; break; }
    case 4: { opf("emplace piecewise %d->%d",k,v); auto q=c.emplace(std::piecewise_construct,std::forward_as_tuple(k),std::forward_as_tuple(v)); CHECK(q.second==!p && q.first->first==k,"emplace piecewise"); if(!p) m[k]=v; break; }
    case 5: { opf("at %d",k); bool th=false; try{ const C& cc=c; int x=cc.at(k).v; CHECK(p&&x==m[k],"at"); }catch(const std::out_of_range&){ th=true; } CHECK(th==!p,"at throws exactly for absent keys"); break; }
    case 6: { opf("insert node hint %d",k); auto nh=c.extract(k); if(!nh.empty()){ auto it=c.insert(c.begin(),std::move(nh)); CHECK(it->first==k && it->second.v==m[k],"node reinserted"); } break; } }
  } }
template<class C> void prun(const char* name,int steps,int seeds,int universe){ begin(name); long live0=cnt().live;
  for(int s=0;s<seeds;++s){ newcase(); Rng r(seed()*1000003+s*7919+universe*31); U=universe; { C c; Model m; std::vector<std::pair<int,const void*>> st;
    for(int i=0;i<steps;++i){ if(r.one_in(2)) step(c,m,r,st); else pstep(c,m,r); ++ncases(); full_check(c,m); if(i%4==0) shard_check(c,m); } shard_check(c,m); } CHECK(cnt().live==live0,"every entry destroyed exactly once"); }
  done(); }
template<class C> void reserve_big(const char* name){ begin(name); for(size_t n: {0,1,7,8,100,1000,5000}){ newcase(); C c(n); c.reserve(n); for(size_t i=0;i<n;++i) if constexpr(is_map<C>::value) c.emplace((int)i,(int)i); else c.insert((int)i); CHECK(c.size()==n,"size"); for(size_t i=0;i<n;++i) CHECK(c.contains((int)i),"present"); CHECK(!c.contains(-1),"absent"); c.rehash(0); CHECK(c.size()==n,"size after rehash"); size_t k=0; for(auto it=c.begin();it!=c.end();++it) ++k; CHECK(k==n,"iteration"); c.clear(); CHECK(c.empty()&&c.begin()==c.end(),"clear"); ncases()+=n; } done(); }
static void cross(){ begin("cross-mutex swap and move"); newcase(); { PFM<3,HShard,std::mutex> a; PFM<3,HShard,gtl::NullMutex> b; for(int i=0;i<100;++i) a.emplace(i,i); for(int i=200;i<250;++i) b.emplace(i,i); a.swap(b); CHECK(a.size()==50 && b.size()==100 && a.contains(200) && b.contains(7) && !a.contains(7),"swap between mutex types"); PFM<3,HShard,std::mutex> c(std::move(a)); CHECK(c.size()==50,"move"); PFM<3,HShard,std::mutex> d; d=std::move(c); CHECK(d.size()==50,"move assign"); d={{1,Tr(1)},{1,Tr(2)}}; CHECK(d.size()==1 && d.at(1).v==1,"list assign"); ncases()+=5; } done(); }
#ifndef VF_PART
#define VF_PART 0
#endif
int main(){ int k=thorough()?6:1;
#if VF_PART==1 || VF_PART==0
  prun<PFM<4,HShard>>("pflat_map/4/mutex",900,3*k,90); prun<PFS<2,HReal,std::shared_mutex>>("pflat_set/2/shared_mutex",900,3*k,60); prun<PNM<3,HShard,std::shared_mutex>>("pnode_map/3/shared",700,3*k,60); reserve_big<PFM<4,HReal>>("reserve/4");
#endif
#if VF_PART==2 || VF_PART==0
  prun<PFM<0,HReal,gtl::NullMutex>>("pflat_map/0/null",700,3*k,50); prun<PFM<1,HConst>>("pflat_map/1/const",600,3*k,30); prun<PNS<6,HShard>>("pnode_set/6/mutex",500,2*k,150); reserve_big<PFS<6,HShard>>("reserve/6"); cross();
#endif
  return 0; }
