// C17/C18 bounded stand-in: b-tree containers against an ordered-sequence model, with the whole
// node structure checked after every operation.
#include "common.hpp"
#include <gtl/btree.hpp>
#include <algorithm>
#include <functional>
using namespace bd;
using gtl::priv::btree; using gtl::priv::set_params; using gtl::priv::map_params;
template<class T> struct K { static T mk(int x){ return T(x); } static int get(const T& t){ if constexpr(requires{ t.ok(); }){ t.ok(); return t.v; } else return (int)t; } };
template<> struct K<std::string> { static std::string mk(int x){ char b[64]; snprintf(b,64,"%06d%s",x,x%3? "":"------------------------"); return b; } static int get(const std::string& s){ return atoi(s.substr(0,6).c_str()); } };
struct CmpTo { gtl::weak_ordering operator()(int a,int b) const { return a<b? gtl::weak_ordering::less: a==b? gtl::weak_ordering::equivalent: gtl::weak_ordering::greater; } };
struct HalfLess { bool operator()(int a,int b) const { return a/2<b/2; } };          // a coarser order: 2k and 2k+1 are equivalent
struct TrLess { bool operator()(const Tr& a,const Tr& b) const { return a<b; } };
static std::map<void*,size_t> g_blocks;
template<class T> struct CA { using value_type=T; CA(){} template<class U> CA(const CA<U>&){} T* allocate(size_t n){ void* p=operator new(n*sizeof(T)); g_blocks[p]=n*sizeof(T); return (T*)p; } void deallocate(T* p,size_t n){ auto it=g_blocks.find(p); CHECK(it!=g_blocks.end()&&it->second==n*sizeof(T),"deallocated a block that was not allocated with this size"); g_blocks.erase(it); operator delete(p); } bool operator==(const CA&) const { return true; } bool operator!=(const CA&) const { return false; } };
struct E { int k, v; bool operator==(const E& o) const { return k==o.k&&v==o.v; } };
template<class C> constexpr bool is_map=requires{ typename C::mapped_type; };
template<class C> E ent(const typename C::value_type& x){ if constexpr(is_map<C>) return { K<typename C::key_type>::get(x.first), K<typename C::mapped_type>::get(x.second) }; else return { K<typename C::key_type>::get(x), 0 }; }
template<class C> typename C::value_type mkv(int k,int v){ if constexpr(is_map<C>) return { K<typename C::key_type>::mk(k), K<typename C::mapped_type>::mk(v) }; else return K<typename C::key_type>::mk(k); }
// ---- structure ----
template<class C,class N> size_t walk(const C& c,const N* n,int depth,int& leafdepth,const typename C::key_type* lo,const typename C::key_type* hi,std::vector<const N*>& leaves){
  CHECK(n->count()>=1,"a node of a non-empty tree is empty"); CHECK(n->count()<=n->max_count(),"a node holds more values than it has room for"); CHECK(n->start()==0,"start");
  auto lt=[&](const auto& a,const auto& b){ return c.tree_.compare_keys(a,b); };
  for(int i=0;i<n->count();++i){ if(i){ CHECK(!lt(n->key(i),n->key(i-1)),"keys of a node are out of order"); if constexpr(!C::params_type::is_multi_container::value) CHECK(lt(n->key(i-1),n->key(i)),"duplicate keys in a unique container"); } if(lo) CHECK(!lt(n->key(i),*lo),"key smaller than the separator on its left"); if(hi) CHECK(!lt(*hi,n->key(i)),"key larger than the separator on its right"); }
  size_t s=n->count(); if(n->leaf()){ if(leafdepth<0) leafdepth=depth; CHECK(leafdepth==depth,"leaves are at different depths"); leaves.push_back(n); }
  else { CHECK(n->max_count()>=3,"internal node size"); for(int i=0;i<=n->count();++i){ const N* ch=n->child(i); CHECK(ch&&ch->parent()==n,"parent link is wrong"); CHECK(ch->position()==i,"recorded child position is wrong"); s+=walk<C,N>(c,ch,depth+1,leafdepth,i? &n->key(i-1):lo,i<n->count()? &n->key(i):hi,leaves); } }
  return s; }
template<class C> void structure(const C& c){ auto& t=c.tree_; using N=std::remove_cvref_t<decltype(*t.root())>; if(c.size()==0){ CHECK(t.root()->leaf()&&t.root()->count()==0,"empty tree has entries"); CHECK(c.begin()==c.end(),"empty range"); return; }
  int ld=-1; std::vector<const N*> leaves; size_t s=walk<C,N>(c,t.root(),0,ld,nullptr,nullptr,leaves); CHECK(s==c.size(),"size differs from the number of values in the nodes"); CHECK(t.leftmost()==leaves.front(),"recorded leftmost node"); CHECK(t.rightmost_==leaves.back(),"recorded rightmost node"); CHECK(t.root()->is_root(),"root"); CHECK((size_t)t.height()==(size_t)ld+1,"height");
  size_t h=ld+1; CHECK(h<=1||((size_t)1<<(h-1))<=s+1,"height is logarithmic"); }
template<class C> void same(C& c,const std::vector<E>& m){ CHECK(c.size()==m.size()&&c.empty()==m.empty(),"size"); size_t i=0; for(auto& x: c){ CHECK(i<m.size(),"iteration runs too far"); E e=ent<C>(x); if(!(e==m[i])){ printf("position %zu holds %d/%d expected %d/%d\n",i,e.k,e.v,m[i].k,m[i].v); fail("contents or order differ",__FILE__,__LINE__);} ++i; } CHECK(i==m.size(),"iteration stops early");
  const C& cc=c; for(auto it=cc.rbegin(); it!=cc.rend(); ++it){ --i; CHECK(ent<C>(*it)==m[i],"backward iteration"); } CHECK(i==0,"backward iteration length"); structure(c); }
template<class C> struct Box { C c; std::vector<E> m; constexpr static bool multi=C::params_type::is_multi_container::value;
  bool lt(int a,int b){ return c.tree_.compare_keys(K<typename C::key_type>::mk(a),K<typename C::key_type>::mk(b)); }
  size_t lb(int k){ size_t i=0; while(i<m.size()&&lt(m[i].k,k)) ++i; return i; } size_t ub(int k){ size_t i=0; while(i<m.size()&&!lt(k,m[i].k)) ++i; return i; }
  bool has(int k){ return lb(k)<ub(k); } auto at(size_t i){ auto it=c.begin(); std::advance(it,i); return it; }
  template<class R> void inserted(const R& r,int k,int v){ size_t p=ub(k); if constexpr(multi){ m.insert(m.begin()+p,E{k,v}); CHECK(r==at(p),"returned position"); } else { bool h=has(k); size_t q=lb(k); CHECK(r.second==!h,"insertion reported wrongly"); if(!h) m.insert(m.begin()+q,E{k,v}); CHECK(r.first==at(q),"returned position"); } }
  // hinted insertion: the entry appears somewhere legal, everything else keeps its order
  template<class It> void hinted(It r,int k,int v){ size_t pos=std::distance(c.begin(),r); if(!multi&&has(k)){ CHECK(pos==lb(k),"hinted insertion designates the existing entry"); return; } CHECK(pos<=m.size()&&pos>=lb(k)&&pos<=ub(k),"hinted insertion position"); m.insert(m.begin()+pos,E{k,v}); }
  void lookups(int k){ auto key=K<typename C::key_type>::mk(k); const C& cc=c; size_t l=lb(k),u=ub(k); CHECK(c.lower_bound(key)==at(l)&&c.upper_bound(key)==at(u),"bounds"); auto er=c.equal_range(key); CHECK(er.first==at(l)&&er.second==at(u),"equal_range"); auto cer=cc.equal_range(key); CHECK(cer.first==er.first&&cer.second==er.second&&cc.lower_bound(key)==er.first&&cc.upper_bound(key)==er.second,"const bounds"); CHECK(c.count(key)==u-l&&c.contains(key)==(l<u),"count");
    auto f=c.find(key); CHECK((f==c.end())==(l==u)&&(f==cc.find(key)),"find"); if(l<u){ size_t p=std::distance(c.begin(),f); CHECK(p>=l&&p<u,"find designates an equal entry"); if(!multi) CHECK(p==l,"find"); }
    if constexpr(is_map<C>&&!multi){ bool thr=false; try{ CHECK(K<typename C::mapped_type>::get(c.at(key))==m[l].v&&&cc.at(key)==&c.at(key),"at"); }catch(std::out_of_range&){ thr=true; } CHECK(thr==(l==u),"at() throws exactly for an absent key"); } }
  void step(Rng& g,int range,int& nv){ int k=(int)g.below(range), v=0; if constexpr(is_map<C>) v=nv++; size_t pos=g.below(m.size()+1); auto key=K<typename C::key_type>::mk(k);
    switch(g.below(24)){
      case 0: case 1: case 2: { opf("insert %d",k); auto x=mkv<C>(k,v); inserted(c.insert(x),k,v); } break;
      case 3: case 4: opf("insert rvalue %d",k); inserted(c.insert(mkv<C>(k,v)),k,v); break;
      case 5: opf("emplace %d",k); if constexpr(is_map<C>) inserted(c.emplace(key,K<typename C::mapped_type>::mk(v)),k,v); else inserted(c.emplace(key),k,v); break;
      case 6: { opf("insert %d hint %zu",k,pos); auto x=mkv<C>(k,v); hinted(c.insert(typename C::const_iterator(at(pos)),x),k,v); } break;
      case 7: { opf("emplace %d hint %zu",k,pos); if constexpr(is_map<C>) hinted(c.emplace_hint(at(pos),key,K<typename C::mapped_type>::mk(v)),k,v); else hinted(c.emplace_hint(at(pos),key),k,v); } break;
      case 8: { size_t h=g.below(2)? lb(k):ub(k); opf("insert %d right hint %zu",k,h); hinted(c.insert(typename C::const_iterator(at(h)),mkv<C>(k,v)),k,v); } break;
      case 9: case 10: case 11: { opf("erase key %d",k); size_t l=lb(k),u=ub(k); CHECK(c.erase(key)==u-l,"erase reports the number removed"); m.erase(m.begin()+l,m.begin()+u); } break;
      case 12: case 13: if(pos<m.size()){ opf("erase position %zu",pos); auto r=g.below(2)? c.erase(at(pos)): c.erase(typename C::const_iterator(at(pos))); m.erase(m.begin()+pos); CHECK(r==at(pos),"erase returns the next position"); } break;
      case 14: { size_t e=pos+g.below(g.below(2)? 4: m.size()-pos+1); if(e>m.size()) e=m.size(); opf("erase range %zu %zu of %zu",pos,e,m.size()); auto r=c.erase(at(pos),at(e)); m.erase(m.begin()+pos,m.begin()+e); CHECK(r==at(pos),"range erase returns the next position"); } break;
      case 15: if(pos<m.size()){ opf("extract %zu and reinsert",pos); E e=m[pos]; auto n=c.extract(at(pos)); m.erase(m.begin()+pos); CHECK(!n.empty(),"extract"); same(c,m); if(g.below(2)){ if constexpr(multi) inserted(c.insert(std::move(n)),e.k,e.v); else { auto r=c.insert(std::move(n)); CHECK(r.inserted&&!r.node,"node insertion"); inserted(std::pair<typename C::iterator,bool>(r.position,r.inserted),e.k,e.v); } } else hinted(c.insert(typename C::const_iterator(at(g.below(m.size()+1))),std::move(n)),e.k,e.v); } break;
      case 16: { opf("extract key %d, insert duplicate",k); bool h=has(k); size_t l=lb(k); auto f=c.find(key); if(h) l=std::distance(c.begin(),f); auto n=c.extract(key); CHECK(n.empty()==!h,"extract by key"); if(h){ E e=m[l]; m.erase(m.begin()+l); if constexpr(!multi){ auto r0=c.insert(mkv<C>(k,v)); inserted(r0,k,v); auto r=c.insert(std::move(n)); CHECK(!r.inserted&&!r.node.empty()&&ent<C>(*r.position).k==k,"node insertion of a present key keeps the node"); (void)e; } } } break;
      case 17: { opf("range insert"); std::vector<std::pair<int,int>> s; for(size_t i=g.below(12);i;--i) s.push_back({(int)g.below(range),is_map<C>?nv++:0}); if(g.below(2)) std::stable_sort(s.begin(),s.end(),[](auto& a,auto& b){ return a.first<b.first; }); std::vector<typename C::value_type> src; for(auto& x: s) src.push_back(mkv<C>(x.first,x.second)); c.insert(src.begin(),src.end()); for(auto& x: s){ if(multi||!has(x.first)) m.insert(m.begin()+ub(x.first),E{x.first,x.second}); } } break;
      case 18: { op("copy/move/assign"); C d(c); CHECK(d==c&&!(d!=c)&&!(d<c)&&d<=c,"copy equals its source"); same(d,m); C e2; e2=d; d.clear(); same(d,{}); same(c,m); d=std::move(e2); same(d,m); C f(std::move(d)); same(f,m); same(d,{}); d.insert(mkv<C>(1,1)); f.swap(d); CHECK(f.size()==1,"swap"); swap(f,d); auto& self=f; f=self; same(f,m); c=std::move(f); } break;
      case 19: if(g.one_in(12)){ op("clear"); c.clear(); m.clear(); } break;
      case 20: { op("merge"); C d; std::vector<E> dm; Box<C> o; int cnt_=(int)g.below(40); for(int i=0;i<cnt_;++i){ int kk=(int)g.below(range), vv=is_map<C>?nv++:0; o.inserted(o.c.insert(mkv<C>(kk,vv)),kk,vv); } c.merge(o.c); std::vector<E> rest; for(auto& e: o.m){ if(multi||!has(e.k)) m.insert(m.begin()+ub(e.k),e); else rest.push_back(e); } same(o.c,rest); } break;
      case 21: if constexpr(is_map<C>&&!multi){ opf("[] / try_emplace %d",k); bool h=has(k); size_t l=lb(k); if(g.below(2)){ auto& r=c[key]; if(!h) m.insert(m.begin()+l,E{k,K<typename C::mapped_type>::get(typename C::mapped_type())}); CHECK(K<typename C::mapped_type>::get(r)==m[l].v,"operator[]"); r=K<typename C::mapped_type>::mk(v); m[l].v=v; } else { auto r=g.below(2)? c.try_emplace(key,K<typename C::mapped_type>::mk(v)): c.try_emplace(K<typename C::key_type>::mk(k),K<typename C::mapped_type>::mk(v)); inserted(r,k,v); } } break;
      case 22: { int md=2+(int)g.below(4); opf("erase_if mod %d",md); if constexpr(requires{ erase_if(c,[](auto&){ return false; }); }) { erase_if(c,[&](auto& x){ return ent<C>(x).k%md==0; }); std::vector<E> n; for(auto& e: m) if(e.k%md) n.push_back(e); m=n; } } break;
      case 23: if constexpr(is_map<C>&&!multi){ opf("hinted try_emplace %d at %zu",k,pos); hinted(c.try_emplace(typename C::const_iterator(at(pos)),key,K<typename C::mapped_type>::mk(v)),k,v); } break; }
    same(c,m); }
};
template<class C> void hist(const char* nm,size_t runs,size_t steps,int range){ begin(nm); Counts c0=cnt(); for(size_t r=0;r<runs;++r){ Rng g(seed()*7919+r); newcase(); { Box<C> b; int nv=1; int rg=1+(int)g.below(range); for(size_t s=0;s<steps;++s){ b.step(g,rg,nv); if(s%4==0) b.lookups((int)g.below(rg+1)); if(b.m.size()>260){ b.c.clear(); b.m.clear(); } } } CHECK(cnt().live==c0.live,"entries leaked or destroyed twice"); CHECK(g_blocks.empty(),"a node was leaked"); } done(); }
// ascending, descending, alternating fills, then every single / range deletion
template<class C> void fills(const char* nm,int N){ begin(nm); Counts c0=cnt(); for(int n: {1,2,3,4,5,7,8,9,13,17,26,40,N}) for(int mode=0;mode<4;++mode){ std::vector<int> order; for(int i=0;i<n;++i) order.push_back(mode==0? i: mode==1? n-1-i: mode==2? (i%2? n-1-i/2: i/2): (i*7919)%n); 
    auto build=[&](Box<C>& b){ for(int x: order) if(!b.has(x)) b.inserted(b.c.insert(mkv<C>(x,x)),x,is_map<C>?x:0); };
    { newcase(); opf("fill %d mode %d",n,mode); Box<C> b; build(b); same(b.c,b.m); for(int k=-1;k<=n;++k) if(k>=0) b.lookups(k); }
    for(int dm=0;dm<3;++dm){ newcase(); opf("fill %d mode %d drain %d",n,mode,dm); Box<C> b; build(b); while(!b.m.empty()){ size_t p=dm==0? 0: dm==1? b.m.size()-1: b.m.size()/2; auto r=b.c.erase(b.at(p)); b.m.erase(b.m.begin()+p); CHECK(r==b.at(p),"erase result"); same(b.c,b.m); } }
    int stepa=n>20? n/7:1; for(int a=0;a<=n&&a<=(int)n;a+=stepa) for(int e=a;e<=n;e+=(n>20? n/9:1)){ newcase(); opf("fill %d mode %d erase range %d %d",n,mode,a,e); Box<C> b; build(b); if(e>(int)b.m.size()) continue; auto r=b.c.erase(b.at(a),b.at(e)); b.m.erase(b.m.begin()+a,b.m.begin()+e); CHECK(r==b.at(a),"range erase result"); same(b.c,b.m); } }
  CHECK(cnt().live==c0.live,"leak"); CHECK(g_blocks.empty(),"node leak"); done(); }
template<class Kk,class Cmp,int NS,bool Multi,class Al=std::allocator<Kk>> using SetC=std::conditional_t<Multi,gtl::priv::btree_multiset_container<btree<set_params<Kk,Cmp,Al,NS,Multi>>>,gtl::priv::btree_set_container<btree<set_params<Kk,Cmp,Al,NS,Multi>>>>;
template<class Kk,class V,class Cmp,int NS,bool Multi,class Al=std::allocator<std::pair<const Kk,V>>> using MapC=std::conditional_t<Multi,gtl::priv::btree_multimap_container<btree<map_params<Kk,V,Cmp,Al,NS,Multi>>>,gtl::priv::btree_map_container<btree<map_params<Kk,V,Cmp,Al,NS,Multi>>>>;
namespace gtl::priv { template<class T> void swap(btree_container<T>& a,btree_container<T>& b){ a.swap(b); } }
int main(){ size_t f=thorough()?12:1;
#if VF_PART==1
  hist<SetC<int,std::less<int>,16,false>>("btree-set-3",40*f,160,60); hist<SetC<int,std::less<int>,32,true>>("btree-multiset-small",40*f,160,25); hist<gtl::btree_set<int>>("btree-set",20*f,400,400);
  hist<MapC<int,int,std::greater<int>,48,false>>("btree-map-greater",40*f,160,60); hist<MapC<int,int,std::less<int>,16,true>>("btree-multimap-3",40*f,160,20);
  fills<SetC<int,std::less<int>,16,false>>("btree-fill-3",90); fills<SetC<int,std::less<int>,40,true>>("btree-fill-7",120);
#elif VF_PART==2
  hist<gtl::btree_set<std::string>>("btree-set-string",14*f,160,120); hist<MapC<std::string,int,std::less<std::string>,64,true>>("btree-multimap-string-3",30*f,120,20); hist<gtl::btree_multimap<int,std::string>>("btree-multimap-string",12*f,300,40);
  hist<SetC<int,CmpTo,24,true>>("btree-multiset-compare-to",40*f,160,20); hist<SetC<int,CmpTo,24,false>>("btree-set-compare-to",40*f,160,50); hist<MapC<int,int,HalfLess,40,true>>("btree-multimap-coarse",40*f,160,40);
  begin("btree-public"); { newcase(); gtl::btree_map<int,int> m{{1,2},{3,4}}; gtl::btree_multiset<int> s{3,1,3}; gtl::btree_multimap<int,int> mm{{1,1},{1,2}}; CHECK(m.size()==2&&s.size()==3&&mm.size()==2,"construction"); gtl::btree_map<int,int> m2; swap(m,m2); CHECK(m2.at(3)==4&&m.empty(),"swap"); gtl::btree_set<int> a{1,2,3},b{1,2,4}; CHECK(a<b&&a!=b&&a<=b&&b>a&&b>=a,"comparison"); s.merge(a); CHECK(s.size()==6&&a.empty(),"merge set into multiset"); b.merge(s); CHECK(b.size()==4&&b.contains(3)&&s.size()==5,"merge multiset into set"); auto vc=m2.value_comp(); std::pair<const int,int> pa(1,5),pb(2,0); CHECK(vc(pa,pb)&&!vc(pb,pa),"value_comp"); } done();
#else
  hist<SetC<Tr,TrLess,128,false,CA<Tr>>>("btree-set-tracked",30*f,160,60); hist<SetC<Tr,TrLess,64,true,CA<Tr>>>("btree-multiset-tracked-3",30*f,160,25); hist<MapC<int,Tr,std::less<int>,200,false,CA<std::pair<const int,Tr>>>>("btree-map-tracked",30*f,160,60); hist<MapC<int,Tr,std::less<int>,64,true,CA<std::pair<const int,Tr>>>>("btree-multimap-tracked-3",30*f,160,20);
  fills<SetC<Tr,TrLess,16,false,CA<Tr>>>("btree-fill-tracked",60); fills<SetC<Tr,TrLess,220,true,CA<Tr>>>("btree-fill-tracked-6",90);
#endif
  return 0; }
