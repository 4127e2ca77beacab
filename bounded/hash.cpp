// Bounded stand-in for the hash-container properties C01-C05, C14.
#include "hash_model.hpp"
// erase-while-iterating and growth boundaries, exhaustive over sizes
template<class C> void boundaries(const char* name,int maxn){ begin(name);
  for(int n=0;n<=maxn;++n) for(int mode=0;mode<6;++mode){ newcase(); U=n+2; C c; Model m; opf("boundary n=%d mode=%d",n,mode); if(mode&1) c.reserve(n);
    size_t cap0=c.capacity();
    for(int i=0;i<n;++i){ if constexpr(is_map<C>::value) c.emplace(i,i); else c.insert(i); m[i]=is_map<C>::value?i:0; }
    if((mode&1)&&n) CHECK(c.capacity()==cap0,"no growth up to the reserved size");
    if(mode>=2 && mode<4){ for(int i=0;i<n;++i) if(i%2){ CHECK(c.erase(i)==1,"erase"); m.erase(i); } c.rehash(0); full_check(c,m); for(int i=0;i<n;++i) if(i%2){ if constexpr(is_map<C>::value) c.emplace(i,i); else c.insert(i); m[i]=is_map<C>::value?i:0; } }
    if(mode>=4){ for(auto it=c.begin(); it!=c.end();){ if(K(c,it)%3==mode-4){ m.erase(K(c,it)); it=c.erase(it); } else ++it; } for(int round=0;round<40;++round){ int x=n+2; if constexpr(is_map<C>::value) c.emplace(x,1); else c.insert(x); CHECK(c.erase(x)==1,"churn"); } }
    full_check(c,m); c.rehash(0); full_check(c,m); c.reserve(c.size()); full_check(c,m); C d(c); full_check(d,m); C e; e.rehash(n); CHECK(e.capacity()>=(size_t)n,"rehash(n) gives n buckets"); c.clear(); m.clear(); full_check(c,m); if constexpr(is_map<C>::value) c.emplace(1,5); else c.insert(1); m[1]=is_map<C>::value?5:0; full_check(c,m); }
  done(); }
// reserve(n) with erased slots in the table: holding n entries causes no growth
template<class C> void reserve_erased(const char* name,int maxcap){ begin(name); for(int c0=7;c0<=maxcap;c0=2*c0+1) for(int frac=1;frac<8;++frac) for(int want=1;want<=4;++want){ newcase(); C c; Model m; opf("reserve after erasures cap=%d frac=%d want=%d",c0,frac,want); c.reserve(c0*7/8); size_t cap=c.capacity(), full=cap*7/8; U=4*(int)cap; for(int i=0;i<(int)full;++i){ if constexpr(is_map<C>::value) c.emplace(i,i); else c.insert(i); m[i]=is_map<C>::value?i:0; }
    for(int i=0;i<(int)full;++i) if(i%8<frac){ CHECK(c.erase(i)==1,"erase"); m.erase(i); } size_t n=full*want/4; c.reserve(n); full_check(c,m); size_t c1=c.capacity(); for(int x=(int)full;c.size()<n;++x){ if constexpr(is_map<C>::value) c.emplace(x,x); else c.insert(x); m[x]=is_map<C>::value?x:0; } CHECK(c.capacity()==c1,"no growth up to the reserved size, also with erased slots"); full_check(c,m); } done(); }
// long churn: tombstone accumulation must not lose keys nor hang
template<class C> void churn(const char* name,int live,int rounds){ begin(name); newcase(); C c; Model m; Rng r(seed()); U=live*3; std::vector<int> order; int nextk=0; for(int i=0;i<rounds;++i){ ++ncases(); int k=nextk++%U; opf("churn insert %d",k); if(!m.count(k)){ if constexpr(is_map<C>::value) c.emplace(k,k); else c.insert(k); m[k]=is_map<C>::value?k:0; order.push_back(k);} if((int)order.size()>live){ size_t j=r.below(order.size()); opf("churn erase %d",order[j]); CHECK(c.erase(order[j])==1,"erase a present key"); m.erase(order[j]); order[j]=order.back(); order.pop_back(); } if(i%17==0) full_check(c,m); }
  full_check(c,m); done(); }
// strings with heterogeneous lookup
static void strings(){ begin("strings"); for(int s=0;s<6;++s){ newcase(); Rng r(seed()*77+s); gtl::flat_hash_map<std::string,int> a; gtl::node_hash_set<std::string> b; std::map<std::string,int> m; for(int i=0;i<600;++i){ ++ncases(); std::string k(r.below(40),'a'+(char)r.below(3)); std::string_view kv=k; bool p=m.count(k); if(r.one_in(3)){ CHECK(a.erase(kv)==p,"erase by view"); b.erase(k); m.erase(k); } else { a[k]=i; b.insert(k); m[k]=i; } CHECK(a.size()==m.size()&&b.size()==m.size(),"string sizes"); for(auto& x:m){ CHECK(a.contains(std::string_view(x.first)) && a.find(x.first.c_str())!=a.end() && a.at(x.first)==x.second && b.contains(x.first),"string lookup by any equal key type"); } CHECK(a.contains(kv)==(m.count(k)>0),"lookup by view"); } } done(); }
// move-only values, pair keys, range/ilist constructors, allocator-extended copies
struct P2 { Tr t; int b; P2(int a,int bb):t(a),b(bb){} bool operator==(const P2& o) const { return t==o.t&&b==o.b; } }; struct P2H { size_t operator()(const P2& p) const { p.t.ok(); return p.t.v*31+p.b; } };
struct Cv { int k,v; operator std::pair<int,Tr>() const { return {k,Tr(v)}; } operator std::pair<const int,Tr>() const { return {k,Tr(v)}; } };
// arguments from which the key cannot be read: the entry is built first and dropped when the key is present
template<class S,class M> static void nondecomposable(const char* name){ begin(name); newcase(); long live=cnt().live; { S s; M m; for(int round=0;round<3;++round) for(int i=0;i<60;++i){ ++ncases(); opf("emplace(%d,%d)",i%20,i%7); auto q=s.emplace(i%20,i%7); CHECK(q.first->t.v==i%20&&q.first->b==i%7,"emplace designates the entry"); s.emplace_hint(s.begin(),i%20,i%7); opf("map emplace %d",i); auto w=m.emplace(Cv{i,i+round}); CHECK(w.second==(round==0)&&w.first->second.v==i,"emplace keeps the first value"); CHECK(cnt().live==live+(long)s.size()+(long)m.size(),"no entry leaked or lost by a duplicate emplace"); } CHECK(m.size()==60,"map size"); } CHECK(cnt().live==live,"every entry destroyed exactly once"); done(); }
static void misc(){ nondecomposable<gtl::flat_hash_set<P2,P2H>,gtl::flat_hash_map<int,Tr>>("nondecomposable/flat"); nondecomposable<gtl::node_hash_set<P2,P2H>,gtl::node_hash_map<int,Tr>>("nondecomposable/node"); begin("misc"); newcase(); { gtl::flat_hash_map<int,std::unique_ptr<int>> a; for(int i=0;i<100;++i){ a.emplace(i,std::make_unique<int>(i)); ++ncases(); } for(int i=0;i<100;i+=2) a.erase(i); a.rehash(0); for(int i=1;i<100;i+=2) CHECK(*a.at(i)==i,"move-only values survive"); auto b=std::move(a); CHECK(b.size()==50,"moved"); CHECK(a.size()==0 && a.find(1)==a.end(),"moved-from container is empty"); a.emplace(1,nullptr); CHECK(a.size()==1,"moved-from container is usable"); }
  { gtl::flat_hash_set<std::pair<int,int>> s; std::set<std::pair<int,int>> m; for(int i=0;i<30;++i) for(int j=0;j<30;j+=3){ s.insert({i,j}); m.insert({i,j}); ++ncases(); } CHECK(s.size()==m.size(),"pair keys"); for(auto& x: m) CHECK(s.contains(x),"pair lookup"); CHECK(!s.contains({1,1}),"absent pair"); }
  { gtl::flat_hash_set<int> a={1,2,3,2,1}; CHECK(a.size()==3,"initializer list"); std::vector<int> v={5,6,5}; gtl::node_hash_set<int> b(v.begin(),v.end()); CHECK(b.size()==2 && b.contains(5)&&b.contains(6),"range constructor"); gtl::flat_hash_map<int,int> c={{1,2},{1,3},{2,4}}; CHECK(c.size()==2 && c[1]==2 && c[2]==4,"first of equal keys wins"); a={7,8}; CHECK(a.size()==2 && a.contains(7)&&!a.contains(1),"assignment from list replaces"); gtl::flat_hash_set<int> d(a,std::allocator<int>()); CHECK(d==a,"allocator-extended copy"); gtl::flat_hash_set<int> e(std::move(d),std::allocator<int>()); CHECK(e==a,"allocator-extended move"); ncases()+=10; }
  { gtl::flat_hash_map<int,int> m; for(int i=0;i<300;++i){ auto it=m.emplace_with_hash(m.hash(i),i,i).first; CHECK(it->second==i && m.contains(i),"emplace_with_hash"); auto n=m.lazy_emplace_with_hash(i,m.hash(i),[&](const auto& ct){ ct(i,-1); }); CHECK(n->second==i,"lazy_emplace_with_hash finds"); ++ncases(); } for(int i=0;i<300;++i) CHECK(m.find(i)!=m.end() && m.find(i)->second==i,"present after emplace_with_hash"); m.emplace_single_with_hash(1000,m.hash(1000),[](const auto& ct){ ct(1000,5); }); CHECK(m.at(1000)==5,"emplace_single"); }
  { gtl::node_hash_map<int,int> a; gtl::node_hash_map<int,int> b; for(int i=0;i<64;++i){ a[i]=i; if(i%2) b[i]=-i; } const int* p=&a[3]; b.merge(a); CHECK(a.size()==32 && b.size()==64,"merge moves the missing entries only"); for(int i=0;i<64;++i) CHECK(b[i]==(i%2?-i:i),"merge keeps target values"); CHECK(&a.at(3)==p,"unmerged node stays"); ncases()+=64; }
  done(); }
#ifndef VF_PART
#define VF_PART 0
#endif
int main(){ int k=thorough()?8:1;
#if VF_PART==1 || VF_PART==0
  run<FS<HReal>>("flat_set/real",1500,6*k,48,1); run<FS<HConst>>("flat_set/const",900,4*k,40,1); run<FM<HFew>>("flat_map/few",900,5*k,48,1); run<FM<HTag>>("flat_map/tag",900,4*k,60,1);
  churn<FS<HConst>>("churn/const",12,3000*k); run<FS<HConst>>("flat_set/const/large",500,1*k,700,100); churn<FS<HReal>>("churn/real",27,6000*k); churn<FM<HHigh>>("churn/high",13,4000*k); churn<FS<HFew>>("churn/few",110,6000*k); strings();
#endif
#if VF_PART==2 || VF_PART==0
  run<NM<HReal>>("node_map/real",1200,5*k,48,1); run<NS<HHigh>>("node_set/high",1000,4*k,40,1); run<FM<HTop>>("flat_map/top",1000,5*k,48,1); run<FS<HNeg>>("flat_set/neg",900,4*k,120,2); run<FM<HId>>("flat_map/id",900,4*k,200,4);
  boundaries<FS<HReal>>("bound/flat_set",140); reserve_erased<FS<HReal>>("reserve/real",511); reserve_erased<FM<HFew>>("reserve/few",63); reserve_erased<FS<HId>>("reserve/id",255); boundaries<FM<HConst>>("bound/flat_map/const",40); boundaries<NM<HId>>("bound/node_map",70); boundaries<FS<HFew>>("bound/few",64); misc();
#endif
  return 0; }
