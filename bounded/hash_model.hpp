// Operation-history model shared by the plain and the parallel hash-container stand-ins: every step is compared with std::map.
#pragma once
#include "common.hpp"
#include <gtl/phmap.hpp>
#include <memory>
#include <algorithm>
using namespace bd;
// ---- hash functions: the real one and adversarial ones
struct HReal { template<class T> size_t operator()(const T& k) const { return gtl::Hash<T>()(k); } };
struct HConst { template<class T> size_t operator()(const T&) const { return 0x5555; } };
struct HFew { size_t operator()(int k) const { return (size_t)(k&3)*0x1000000ull+((k&4)?7:0); } };
struct HId { size_t operator()(int k) const { return (size_t)k; } };
struct HHigh { size_t operator()(int k) const { return (size_t)k<<7; } };
struct HTop { size_t operator()(int k) const { return ((size_t)k<<56)|((size_t)k*13); } };
struct HTag { size_t operator()(int k) const { return (size_t)k&0x7f; } };
struct HNeg { size_t operator()(int k) const { return ~(size_t)0 - (size_t)k*3; } };
// ---- adapters: key/value access over the four container kinds, value type V (int key)
template<class H> using FS=gtl::flat_hash_set<int,H>;  template<class H> using NS=gtl::node_hash_set<int,H>;
template<class H> using FM=gtl::flat_hash_map<int,Tr,H>; template<class H> using NM=gtl::node_hash_map<int,Tr,H>;
template<class C,class=void> struct is_map:std::false_type{}; template<class C> struct is_map<C,std::void_t<typename C::mapped_type>>:std::true_type{};
template<class C,class=void> struct is_par:std::false_type{}; template<class C> struct is_par<C,std::void_t<typename C::Inner>>:std::true_type{};
using Model=std::map<int,int>;
template<class C> int K(const C&,typename C::const_iterator it){ if constexpr(is_map<C>::value) return it->first; else return *it; }
template<class C> int Vv(const C&,typename C::const_iterator it){ if constexpr(is_map<C>::value){ it->second.ok(); return it->second.v; } else return 0; }
template<class C> constexpr bool node_based(){ if constexpr(is_par<C>::value) return std::is_pointer_v<typename C::EmbeddedSet::slot_type>; else return std::is_pointer_v<typename C::slot_type>; }
static int U=48; // key universe
template<class C> void full_check(C& c,const Model& m){
  CHECK(c.size()==m.size(),"size equals number of entries"); CHECK(c.empty()==m.empty(),"empty");
  CHECK(c.capacity()>=c.size(),"capacity holds the entries"); CHECK(is_par<C>::value || c.capacity()==0 || (((c.capacity()+1)&c.capacity())==0),"capacity is 2^k-1");
  const C& cc=c; size_t n=0; std::set<int> seen;
  for(auto it=cc.begin(); it!=cc.end(); ++it){ int k=K(c,it); auto f=m.find(k); CHECK(f!=m.end(),"iteration yields only present entries"); CHECK(seen.insert(k).second,"iteration yields an entry once"); if(is_map<C>::value) CHECK(Vv(c,it)==f->second,"iterated value"); CHECK(++n<=m.size(),"iteration ends"); }
  CHECK(n==m.size(),"iteration visits every entry");
  n=0; for(auto it=c.begin(); it!=c.end(); it++) ++n; CHECK(n==m.size(),"mutable iteration visits every entry");
  for(int k=-1;k<=U;++k){ auto f=m.find(k); bool p=f!=m.end(); auto it=c.find(k); CHECK((it!=c.end())==p,"find succeeds exactly for present keys"); CHECK(cc.contains(k)==p,"contains"); CHECK(cc.count(k)==(p?1u:0u),"count"); if(p){ CHECK(K(c,it)==k,"find designates the key"); if(is_map<C>::value) CHECK(Vv(c,it)==f->second,"find designates the value"); }
    size_t h=c.hash(k); CHECK((c.find(k,h)!=c.end())==p,"find with hash"); CHECK(cc.contains(k,h)==p,"contains with hash"); }
}
template<class C> void step(C& c,Model& m,Rng& r,std::vector<std::pair<int,const void*>>& stable){
  constexpr bool MAP=is_map<C>::value; int k=(int)r.below(U); int v=(int)r.below(1000); bool p=m.count(k)>0; size_t before=m.size();
  auto chk=[&](typename C::iterator it,bool ins){ CHECK(ins==!p,"insertion reports whether it inserted"); CHECK(it!=c.end() && K(c,it)==k,"insertion designates the entry"); };
  size_t choice=r.below(MAP?34:26);
  switch(choice){
  case 0: case 1: case 2: { opf("insert %d->%d",k,v); if constexpr(MAP){ auto q=c.insert({k,Tr(v)}); chk(q.first,q.second); if(!p) m[k]=v; } else { auto q=c.insert(k); chk(q.first,q.second); m[k]=0; } break; }
  case 3: { opf("emplace %d->%d",k,v); if constexpr(MAP){ auto q=c.emplace(k,v); chk(q.first,q.second); if(!p) m[k]=v; } else { auto q=c.emplace(k); chk(q.first,q.second); m[k]=0; } break; }
  case 4: { opf("insert const& %d->%d",k,v); if constexpr(MAP){ const std::pair<const int,Tr> x(k,v); auto q=c.insert(x); chk(q.first,q.second); CHECK(x.second.v==v,"argument untouched"); if(!p) m[k]=v; } else { const int x=k; auto q=c.insert(x); chk(q.first,q.second); m[k]=0; } break; }
  case 5: { opf("hint insert %d->%d",k,v); if constexpr(MAP){ auto it=c.insert(c.begin(),{k,Tr(v)}); CHECK(it->first==k,"hint insert"); if(!p) m[k]=v; } else { auto it=c.insert(c.end(),k); CHECK(*it==k,"hint insert"); m[k]=0; } break; }
  case 6: { opf("lazy_emplace %d->%d",k,v); bool called=false; auto it=c.lazy_emplace(k,[&](const auto& ctor){ called=true; if constexpr(MAP) ctor(k,v); else ctor(k); }); CHECK(called==!p,"lazy_emplace builds exactly when absent"); CHECK(K(c,it)==k,"lazy_emplace"); if(!p) m[k]=MAP?v:0; break; }
  case 7: case 8: case 9: case 10: { opf("erase key %d",k); CHECK(c.erase(k)==(p?1u:0u),"erase reports the number removed"); m.erase(k); break; }
  case 11: case 12: { auto it=c.find(k); if(it!=c.end()){ opf("erase iterator %d",k); std::set<int> rest; auto t=it; for(++t;t!=c.end();++t) rest.insert(K(c,t)); auto nx=c.erase(it); m.erase(k); std::set<int> rest2; for(;nx!=c.end();++nx) rest2.insert(K(c,nx)); CHECK(rest==rest2,"erase returns the following position"); } break; }
  case 13: { opf("_erase %d",k); auto it=c.find(k); if(it!=c.end()){ c._erase(it); m.erase(k); } break; }
  case 14: { int d=2+(int)r.below(5); opf("erase_if key%%%d==0",d); size_t e=0; for(auto i=m.begin();i!=m.end();) if(i->first%d==0){ i=m.erase(i); ++e; } else ++i; size_t got=gtl::erase_if(c,[&](const auto& x){ if constexpr(MAP) return x.first%d==0; else return x%d==0; }); (void)e; CHECK(got==e,"erase_if reports how many"); break; }
  case 15: { opf("extract %d",k); auto nh=c.extract(k); CHECK(nh.empty()==!p,"extract finds the key"); if(p){ if constexpr(MAP){ CHECK(nh.key()==k && nh.mapped().v==m[k],"extracted entry unchanged"); } else CHECK(nh.value()==k,"extracted entry unchanged"); int mv=m[k]; m.erase(k);
      if(r.one_in(3)){ opf("extract: reinsert a rejected node"); if constexpr(MAP) c.emplace(k,mv+1); else c.insert(k); m[k]=MAP?mv+1:0; auto rejected=[&](auto& n){ CHECK(!n.empty(),"a rejected node is handed back"); if constexpr(MAP) CHECK(n.key()==k && n.mapped().v==mv,"a rejected node keeps its entry"); else CHECK(n.value()==k,"a rejected node keeps its entry"); };
        if(r.one_in(2)){ auto q=c.insert(std::move(nh)); CHECK(!q.inserted && K(c,q.position)==k,"duplicate node rejected"); rejected(q.node); } else { auto it=c.insert(c.begin(),std::move(nh)); CHECK(K(c,it)==k,"duplicate node rejected (hint)"); rejected(nh); } CHECK(c.size()==m.size(),"a rejected node changes nothing"); }
      else if(r.one_in(2)){ opf("extract: reinsert a node with a hint"); auto it=c.insert(c.end(),std::move(nh)); CHECK(K(c,it)==k && nh.empty(),"reinsert node (hint)"); m[k]=mv; }
      else if(r.one_in(2)){ CHECK(c.size()==m.size(),"extract removes one"); auto q=c.insert(std::move(nh)); CHECK(q.inserted && q.node.empty() && K(c,q.position)==k,"reinsert node"); m[k]=mv; } } break; }
  case 16: { size_t n=r.below(60); opf("rehash %zu",n); c.rehash(n); CHECK(is_par<C>::value || c.capacity()>=n,"rehash provides the buckets"); break; }
  case 17: { size_t n=r.below(60); opf("reserve %zu",n); c.reserve(n); size_t cap=c.capacity(); C d(c); (void)d; Model mm=m; int kk=0; size_t add= n>c.size()? n-c.size():0; std::vector<int> added; while(add){ if(!mm.count(kk)){ if constexpr(MAP) c.emplace(kk,7); else c.insert(kk); mm[kk]=MAP?7:0; added.push_back(kk); --add; } ++kk; } CHECK(is_par<C>::value || c.capacity()==cap,"no growth after reserve"); m=mm; if(U<kk) U=kk; break; }
  case 18: { if(r.one_in(3)){ opf("clear"); c.clear(); m.clear(); CHECK(c.begin()==c.end(),"cleared container is empty"); } break; }
  case 19: { opf("copy construct/assign"); C d(c); full_check(d,m); CHECK(d==c && !(d!=c),"copy equals source"); if constexpr(MAP) d.insert_or_assign(k,-5); else { if(p) d.erase(k); else d.insert(k); } C e; e=d; CHECK(e==d,"assigned copy equals"); if constexpr(MAP){ if(p) CHECK(c.find(k)->second.v==m[k],"copy is independent"); } full_check(c,m); C& self=c; c=self; full_check(c,m); C f; int nf=1+(int)r.below(40); for(int q=0;q<nf;++q){ int kk=(int)r.below(2*U); if constexpr(MAP) f.emplace(kk,-7); else f.insert(kk); } f=c; full_check(f,m); CHECK(f==c,"assignment replaces the old contents"); break; }
  case 20: { opf("move construct/assign"); C d(std::move(c)); full_check(d,m); C e; int nf=(int)r.below(40); for(int q=0;q<nf;++q){ int kk=(int)r.below(2*U); if constexpr(MAP) e.emplace(kk,-7); else e.insert(kk); } e=std::move(d); full_check(e,m); c=std::move(e); break; }
  case 21: { opf("swap"); C d; Model dm; for(int i=0;i<(int)r.below(20);++i){ int x=(int)r.below(U); if constexpr(MAP) d.emplace(x,x); else d.insert(x); dm.emplace(x,MAP?x:0); } c.swap(d); full_check(c,dm); full_check(d,m); using std::swap; swap(c,d); break; }
  case 22: { opf("merge"); C d; Model dm; int n=(int)r.below(25); for(int i=0;i<n;++i){ int x=(int)r.below(U); if constexpr(MAP) d.emplace(x,x+5000); else d.insert(x); dm.emplace(x,MAP?x+5000:0); } Model rest; for(auto& x: dm) if(!m.count(x.first)) m.insert(x); else rest.insert(x); c.merge(d); full_check(d,rest); break; }
  case 23: { opf("equality with reordered copy"); C d; std::vector<std::pair<int,int>> es(m.begin(),m.end()); for(size_t i=es.size();i>1;--i) std::swap(es[i-1],es[r.below(i)]); d.reserve(r.below(100)); for(auto& x: es) if constexpr(MAP) d.emplace(x.first,x.second); else d.insert(x.first); CHECK(d==c && c==d,"equal contents compare equal"); if(!es.empty()){ int x=es[r.below(es.size())].first; if constexpr(MAP){ d.find(x)->second=Tr(-77); CHECK(!(d==c)&&d!=c,"a differing value is seen"); } d.erase(x); CHECK(!(d==c) && d!=c,"differing contents compare unequal"); int y=U+1; if constexpr(MAP) d.emplace(y,0); else d.insert(y); CHECK(!(d==c)&&!(c==d),"same size, different keys"); } break; }
  case 24: { opf("equal_range/erase range"); auto q=c.equal_range(k); size_t n=0; for(auto it=q.first; it!=q.second; ++it){ CHECK(K(c,it)==k,"equal_range key"); ++n; } CHECK(n==(p?1u:0u),"equal_range length"); if(r.one_in(4)){ size_t keep=r.below(c.size()+1); auto it=c.begin(); Model nm; for(size_t i=0;i<keep;++i,++it) nm[K(c,it)]=m[K(c,it)]; auto e=c.erase(it,c.end()); CHECK(e==c.end(),"erase range"); m=nm; } break; }
  case 25: { int cntn=(int)r.below(30); opf("range insert %d",cntn); std::vector<typename C::value_type> xs; for(int i=0;i<cntn;++i){ int x=(int)r.below(U); if constexpr(MAP){ xs.emplace_back(x,x*2); m.emplace(x,x*2); } else { xs.push_back(x); m[x]=0; } } c.insert(xs.begin(),xs.end()); break; }
  default: if constexpr(MAP) switch(choice){
    case 26: case 27: { opf("try_emplace %d->%d",k,v); auto q=c.try_emplace(k,v); chk(q.first,q.second); if(!p) m[k]=v; break; }
    case 28: case 29: { opf("insert_or_assign %d->%d",k,v); auto q=c.insert_or_assign(k,Tr(v)); chk(q.first,q.second); m[k]=v; break; }
    case 30: { opf("operator[] %d=%d",k,v); Tr& t=c[k]; CHECK(t.v==(p?m[k]:0),"operator[] yields the current or a default value"); t=Tr(v); m[k]=v; break; }
    case 31: { opf("at %d",k); bool th=false; try{ CHECK(c.at(k).v==m[k] || !p,"at"); } catch(const std::out_of_range&){ th=true; } if(!p) m.erase(k); CHECK(th==!p,"at throws exactly for absent keys"); break; }
    case 32: { opf("hint try_emplace/insert_or_assign %d->%d",k,v); auto it=c.try_emplace(c.end(),k,v); CHECK(it->first==k,"hint"); if(!p) m[k]=v; it=c.insert_or_assign(c.begin(),k,Tr(v+1)); CHECK(it->first==k && it->second.v==v+1,"hint assign"); m[k]=v+1; break; }
    case 33: { opf("value written through iterator %d",k); auto it=c.find(k); if(it!=c.end()){ it->second=Tr(v); m[k]=v; } break; } }
  }
  (void)before; (void)stable;
}
// node-based: addresses stable until erased
template<class C> void run(const char* name,int steps,int seeds,int universe,int every){
  begin(name); long live0=cnt().live;
  for(int s=0;s<seeds;++s){ newcase(); Rng r(seed()*1000003+s*7919+universe); U=universe; { C c; Model m; std::vector<std::pair<int,const void*>> st; full_check(c,m);
    constexpr bool NODE=node_based<C>();
    std::map<int,const void*> addr;
    for(int i=0;i<steps;++i){ if constexpr(NODE){ addr.clear(); for(auto it=c.begin();it!=c.end();++it) addr[K(c,it)]=&*it; }
      step(c,m,r,st); ++ncases();
      if constexpr(NODE){ auto& last=hist().back(); bool moved=last.rfind("extract",0)==0||last.rfind("copy",0)==0||last.rfind("move",0)==0||last.rfind("clear",0)==0; if(!moved) for(auto it=c.begin();it!=c.end();++it){ auto a=addr.find(K(c,it)); if(a!=addr.end()) CHECK(a->second==(const void*)&*it,"entry of a node container keeps its address"); } }
      if(i%every==0) full_check(c,m); }
    full_check(c,m); } CHECK(cnt().live==live0,"every entry destroyed exactly once"); }
  done(); }
