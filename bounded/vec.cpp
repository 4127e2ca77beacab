// C15/C16 bounded stand-in: gtl::vector against a plain sequence model; enumerated
// one-operation cases (size x capacity x position x count x argument kind) and random histories.
#include "common.hpp"
#include <gtl/vector.hpp>
#include <memory>
#include <sstream>
#include <iterator>
#include <list>
#include <forward_list>
#include <unordered_map>
using namespace bd;
struct Big { long a[6]; bool operator==(const Big& o) const { return !memcmp(a,o.a,sizeof a); } bool operator<(const Big& o) const { return a[0]<o.a[0]; } };
struct Tn : Tr { using Tr::Tr; Tn(int x=0):Tr(x){} Tn(const Tn& o):Tr(o){} Tn(Tn&& o) noexcept : Tr(0,0){ o.ok(); born(o.v); o.v=-1; *o.heap=-1; } Tn& operator=(const Tn&)=default; Tn& operator=(Tn&&)=default; };
struct Mo { std::unique_ptr<int> p; Mo(int x=0):p(new int(x)){} Mo(Mo&&)=default; Mo& operator=(Mo&&)=default; };
template<class T> struct V { static T mk(int x){ return T(x); } static int get(const T& t){ if constexpr(requires{ t.ok(); }) t.ok(); if constexpr(std::is_same_v<T,Mo>) return t.p? *t.p:-7; else if constexpr(requires{ t.v; }) return t.v; else return (int)t; } };
template<> struct V<Big> { static Big mk(int x){ Big b; for(int i=0;i<6;++i) b.a[i]=x*7+i; b.a[0]=x; return b; } static int get(const Big& b){ for(int i=1;i<6;++i) CHECK(b.a[i]==b.a[0]*7+i,"element bytes corrupted"); return (int)b.a[0]; } };
template<> struct V<std::string> { static std::string mk(int x){ char b[64]; snprintf(b,64,x%2?"%d":"%d-------------------------------------",x); return b; } static int get(const std::string& s){ return s.empty()? 0: atoi(s.c_str()); } };
// allocator that checks every deallocation
static std::map<void*,std::pair<size_t,int>> g_blocks;
template<class T> struct CA { using value_type=T; int id=0; CA(int i=0):id(i){} template<class U> CA(const CA<U>& o):id(o.id){}
  T* allocate(size_t n){ T* p=(T*)malloc(n*sizeof(T)+1); g_blocks[p]={n,id}; return p; } void deallocate(T* p,size_t n){ auto it=g_blocks.find(p); CHECK(it!=g_blocks.end(),"deallocated a block that was not allocated"); CHECK(it->second.first==n,"deallocated with a different size"); CHECK(it->second.second==id,"deallocated through a different allocator"); g_blocks.erase(it); free(p); }
  bool operator==(const CA& o) const { return id==o.id; } bool operator!=(const CA& o) const { return id!=o.id; } };
template<class T> struct PA : CA<T> { using CA<T>::CA; PA(int i=0):CA<T>(i){} template<class U> PA(const PA<U>& o):CA<T>(o.id){} template<class U> struct rebind { using other=PA<U>; }; using propagate_on_container_move_assignment=std::true_type; using propagate_on_container_copy_assignment=std::true_type; using propagate_on_container_swap=std::true_type; };
template<class T> struct InIt { using iterator_category=std::input_iterator_tag; using value_type=T; using difference_type=ptrdiff_t; using pointer=const T*; using reference=const T&; const std::vector<int>* s; size_t i; mutable std::shared_ptr<T> cur; const T& operator*() const { cur=std::make_shared<T>(V<T>::mk((*s)[i])); return *cur; } InIt& operator++(){ ++i; return *this; } InIt operator++(int){ InIt r=*this; ++i; return r; } bool operator==(const InIt& o) const { return i==o.i; } bool operator!=(const InIt& o) const { return i!=o.i; } };
using M=std::vector<int>;
template<class VT> void same(const VT& v,const M& m,const char* w="contents"){ using T=typename VT::value_type; if(v.size()!=m.size()||v.empty()!=m.empty()||v.capacity()<v.size()){ printf("%s size %zu expected %zu cap %zu\n",w,v.size(),m.size(),v.capacity()); fail("size or capacity is wrong",__FILE__,__LINE__); }
  CHECK((size_t)(v.end()-v.begin())==m.size(),"iterator distance"); size_t i=0; for(auto& x: v){ int g=V<T>::get(x); if(g!=m[i]){ printf("%s: element %zu is %d, expected %d\n",w,i,g,m[i]); fail("element differs from the sequence",__FILE__,__LINE__);} ++i; }
  i=m.size(); for(auto r=v.rbegin(); r!=v.rend(); ++r){ --i; CHECK(V<T>::get(*r)==m[i],"reverse order"); } if(!m.empty()){ CHECK(V<T>::get(v.front())==m.front()&&V<T>::get(v.back())==m.back()&&V<T>::get(v[m.size()/2])==m[m.size()/2]&&V<T>::get(v.at(m.size()-1))==m.back(),"element access"); CHECK(v.data()==&v[0],"data"); }
  bool thr=false; try{ v.at(m.size()); }catch(std::out_of_range&){ thr=true; } CHECK(thr,"at() past the end must throw"); }
template<class VT> VT make(const M& m,size_t cap){ VT v; if(cap>=m.size()&&cap) v.reserve(cap); for(int x: m) v.push_back(V<typename VT::value_type>::mk(x)); if(!cap) v.shrink_to_fit(); return v; }
static M seq(size_t n,int base=1){ M m; for(size_t i=0;i<n;++i) m.push_back(base+(int)i); return m; }
template<class VT> void oneop(const char* nm){ using T=typename VT::value_type; begin(nm); constexpr bool cp=std::is_copy_constructible_v<T>; Counts c0=cnt();
  for(size_t n: {0,1,2,3,5,8,9}) for(size_t extra: {0,1,2,4,20}){ M base=seq(n); auto fresh=[&]{ return make<VT>(base,extra? n+extra:0); };
    for(size_t pos=0;pos<=n;++pos){
      { newcase(); opf("size %zu spare %zu emplace at %zu",n,extra,pos); VT v=fresh(); M m=base; auto it=v.emplace(v.cbegin()+pos,V<T>::mk(100)); m.insert(m.begin()+pos,100); CHECK(it==v.begin()+pos,"emplace result"); same(v,m); }
      { newcase(); op("insert rvalue"); VT v=fresh(); M m=base; auto it=v.insert(v.cbegin()+pos,V<T>::mk(101)); m.insert(m.begin()+pos,101); CHECK(it==v.begin()+pos,"insert result"); same(v,m); }
      if constexpr(cp){
        for(size_t k: {0,1,2,3,7,12}){ 
          { newcase(); opf("size %zu spare %zu insert %zu copies at %zu",n,extra,k,pos); VT v=fresh(); M m=base; T x=V<T>::mk(55); auto it=v.insert(v.cbegin()+pos,k,x); m.insert(m.begin()+pos,k,55); CHECK(it==v.begin()+pos,"insert n result"); same(v,m); }
          { newcase(); opf("size %zu spare %zu insert range of %zu at %zu",n,extra,k,pos); VT v=fresh(); M m=base; std::list<T> l; M lm=seq(k,200); for(int x: lm) l.push_back(V<T>::mk(x)); auto it=v.insert(v.cbegin()+pos,l.begin(),l.end()); m.insert(m.begin()+pos,lm.begin(),lm.end()); CHECK(it==v.begin()+pos,"insert range result"); same(v,m); }
          { newcase(); opf("insert pointer range of %zu at %zu",k,pos); VT v=fresh(); M m=base; std::vector<T> l; M lm=seq(k,200); for(int x: lm) l.push_back(V<T>::mk(x)); auto it=v.insert(v.cbegin()+pos,(const T*)l.data(),(const T*)l.data()+k); m.insert(m.begin()+pos,lm.begin(),lm.end()); CHECK(it==v.begin()+pos,"insert pointer range result"); same(v,m); }
          { newcase(); opf("insert input range of %zu at %zu",k,pos); VT v=fresh(); M m=base; M lm=seq(k,300); auto it=v.insert(v.cbegin()+pos,InIt<T>{&lm,0},InIt<T>{&lm,lm.size()}); m.insert(m.begin()+pos,lm.begin(),lm.end()); CHECK(it==v.begin()+pos,"insert input range result"); same(v,m); } }
        { newcase(); op("insert ilist"); VT v=fresh(); M m=base; auto it=v.insert(v.cbegin()+pos,{V<T>::mk(7),V<T>::mk(8)}); m.insert(m.begin()+pos,{7,8}); CHECK(it==v.begin()+pos,"insert ilist result"); same(v,m); }
        for(size_t src=0;src<n;++src){
          { newcase(); opf("size %zu spare %zu insert own element %zu at %zu",n,extra,src,pos); VT v=fresh(); M m=base; v.insert(v.cbegin()+pos,v[src]); m.insert(m.begin()+pos,base[src]); same(v,m); }
          { newcase(); opf("size %zu spare %zu insert 3 x own element %zu at %zu",n,extra,src,pos); VT v=fresh(); M m=base; v.insert(v.cbegin()+pos,3,v[src]); m.insert(m.begin()+pos,3,base[src]); same(v,m); }
          { newcase(); opf("size %zu spare %zu emplace own element %zu at %zu",n,extra,src,pos); VT v=fresh(); M m=base; v.emplace(v.cbegin()+pos,v[src]); m.insert(m.begin()+pos,base[src]); same(v,m); } } }
      for(size_t last=pos;last<=n;++last){ newcase(); opf("size %zu spare %zu erase [%zu,%zu)",n,extra,pos,last); VT v=fresh(); M m=base; size_t cap=v.capacity(); auto it=v.erase(v.cbegin()+pos,v.cbegin()+last); m.erase(m.begin()+pos,m.begin()+last); CHECK(it==v.begin()+pos,"erase result"); CHECK(v.capacity()==cap,"erase keeps the allocation"); same(v,m); }
      if(pos<n){ newcase(); opf("erase %zu",pos); VT v=fresh(); M m=base; auto it=v.erase(v.cbegin()+pos); m.erase(m.begin()+pos); CHECK(it==v.begin()+pos,"erase result"); same(v,m); } }
    for(size_t k: {0,1,2,3,4,5,6,8,9,10,13,30}){
      { newcase(); opf("size %zu spare %zu resize %zu",n,extra,k); VT v=fresh(); M m=base; v.resize(k); m.resize(k,0); if constexpr(std::is_same_v<T,Big>){ for(size_t i=n;i<k;++i){ for(long w: v[i].a) CHECK(w==0,"value-initialised"); v[i]=V<T>::mk(0); } } same(v,m); }
      { newcase(); opf("reserve %zu",k); VT v=fresh(); v.reserve(k); CHECK(v.capacity()>=k,"reserve guarantees room"); same(v,base); const T* d=v.data(); M m=base; while(v.size()<k){ v.push_back(V<T>::mk(9)); m.push_back(9); } if(k>=n&&k) CHECK(v.data()==d,"no reallocation within the reserved room"); same(v,m); }
      if constexpr(cp){
        { newcase(); opf("size %zu spare %zu resize %zu with value",n,extra,k); VT v=fresh(); M m=base; v.resize(k,V<T>::mk(77)); m.resize(k,77); same(v,m); }
        { newcase(); opf("size %zu spare %zu assign %zu",n,extra,k); VT v=fresh(); M m; v.assign(k,V<T>::mk(78)); m.assign(k,78); same(v,m); }
        { newcase(); opf("assign range %zu",k); VT v=fresh(); M lm=seq(k,400); std::list<T> l; for(int x: lm) l.push_back(V<T>::mk(x)); v.assign(l.begin(),l.end()); same(v,lm); }
        { newcase(); opf("assign pointer range %zu",k); VT v=fresh(); M lm=seq(k,400); std::vector<T> l; for(int x: lm) l.push_back(V<T>::mk(x)); v.assign((const T*)l.data(),(const T*)l.data()+k); same(v,lm); }
        { newcase(); opf("assign input range %zu",k); VT v=fresh(); M lm=seq(k,500); v.assign(InIt<T>{&lm,0},InIt<T>{&lm,lm.size()}); same(v,lm); }
        { newcase(); opf("copy assign from %zu to %zu",k,n); VT v=fresh(); VT w=make<VT>(seq(k,20),0); v=w; same(v,seq(k,20)); same(w,seq(k,20)); CHECK(v==w&&!(v!=w)&&v<=w&&v>=w&&!(v<w)&&!(v>w),"comparison"); if(k){ v[0]=V<T>::mk(-5); same(w,seq(k,20)); } }
        for(size_t src=0;src<n;++src){ { newcase(); opf("size %zu spare %zu resize %zu with own element %zu",n,extra,k,src); VT v=fresh(); M m=base; v.resize(k,v[src]); m.resize(k,base[src]); same(v,m); }
          { newcase(); opf("size %zu spare %zu assign %zu x own element %zu",n,extra,k,src); VT v=fresh(); M m; v.assign(k,v[src]); m.assign(k,base[src]); same(v,m); } } }
      { newcase(); opf("move assign / swap %zu %zu",k,n); VT v=fresh(); VT w=make<VT>(seq(k,20),0); v.swap(w); same(v,seq(k,20)); same(w,base); swap(v,w); same(v,base); v=std::move(w); same(v,seq(k,20)); } }
    { newcase(); opf("size %zu spare %zu clear/shrink/pop/push",n,extra); VT v=fresh(); M m=base; v.shrink_to_fit(); same(v,m); CHECK(n==0||v.capacity()==n,"shrink_to_fit"); v.push_back(V<T>::mk(1)); m.push_back(1); same(v,m); v.pop_back(); m.pop_back(); same(v,m); v.clear(); same(v,M{}); v.push_back(V<T>::mk(2)); same(v,M{2}); v.clear(); v.shrink_to_fit(); CHECK(v.capacity()==0&&v.data()==nullptr,"shrunk empty vector"); v.push_back(V<T>::mk(3)); same(v,M{3}); }
    { newcase(); op("move construct"); VT v=fresh(); const T* d=v.data(); VT w(std::move(v)); CHECK(w.data()==d,"move keeps the buffer"); same(w,base); same(v,M{}); v.push_back(V<T>::mk(4)); same(v,M{4}); same(w,base); VT& r=w; w=std::move(r); same(w,base); w.swap(r); same(w,base); }
    { newcase(); op("relinquish/attach"); VT v=fresh(); size_t c=v.capacity(); T* d=relinquish(v); CHECK(v.size()==0&&v.capacity()==0,"relinquish empties"); VT w; attach(w,d,n,c); same(w,base); }
    if constexpr(cp){ { newcase(); op("copy construct"); VT v=fresh(); VT w(v); same(w,base); same(v,base); if(n){ w[0]=V<T>::mk(-9); CHECK(V<T>::get(v[0])==base[0],"copy is independent"); } VT x(v.begin(),v.end()); same(x,base); VT y(v,v.get_allocator()); same(y,base); VT z(std::move(y),v.get_allocator()); same(z,base); VT& q=z; z=q; same(z,base); }
      { newcase(); op("input construct"); VT v(InIt<T>{&base,0},InIt<T>{&base,base.size()}); same(v,base); VT w(n,V<T>::mk(3)); same(w,M(n,3)); VT u{V<T>::mk(5),V<T>::mk(6)}; same(u,M{5,6}); u={V<T>::mk(1)}; same(u,M{1}); }
      for(size_t src=0;src<n;++src){ newcase(); opf("push_back own %zu",src); VT v=fresh(); M m=base; v.push_back(v[src]); m.push_back(base[src]); v.emplace_back(v[src]); m.push_back(base[src]); same(v,m); VT w=fresh(); m=base; w.push_back(T(w[src])); m.push_back(base[src]); same(w,m); } }
    for(int mod=1;mod<=3;++mod) if constexpr(requires(T a,T b){ a==b; }){ newcase(); opf("erase_if/erase mod %d",mod); VT v=fresh(); M m; for(int x: base) if(x%mod) m.push_back(x); gtl::erase_if(v,[&](const T& t){ return V<T>::get(t)%mod==0; }); same(v,m); VT w=fresh(); M q; for(int x: base) if(x!=mod) q.push_back(x); gtl::erase(w,V<T>::mk(mod)); same(w,q); }
    // comparisons
    if constexpr(requires(T a,T b){ a<b; a==b; }) for(size_t k: {0,1,2,5}){ newcase(); M b2=seq(k,1); if(k>1) b2[1]+=extra%3; VT v=fresh(), w=make<VT>(b2,0); if constexpr(!std::is_same_v<T,std::string>){ CHECK((v<w)==(base<b2)&&(v>w)==(base>b2)&&(v<=w)==(base<=b2)&&(v>=w)==(base>=b2),"ordering"); } CHECK((v==w)==(base==b2)&&(v!=w)==(base!=b2),"equality"); } }
  CHECK(cnt().live==c0.live,"an element was leaked or destroyed twice"); CHECK(g_blocks.empty(),"a block was leaked"); done(); }
template<class VT> void throwing(const char* nm){ using T=typename VT::value_type; begin(nm);
  for(size_t n: {0,1,3,6}) for(size_t extra: {0,1,2,9}) for(size_t pos=0;pos<=n;++pos) for(int what=0;what<16;++what) for(long at=0;at<30;++at){
    long l0=cnt().live; bool threw=false; newcase(); opf("size %zu spare %zu pos %zu op %d, construction %ld throws",n,extra,pos,what,at);
    { throw_at()=-1; VT v=make<VT>(seq(n),extra? n+extra:0); M src=seq(4,50); T x(99); std::vector<T> sv; for(int q: src) sv.emplace_back(q); VT w=make<VT>(seq(5,30),0);
      M before=seq(n); long live1=cnt().live; throw_at()=at; bool strong=false;
      try { switch(what){ case 0: strong=true; v.push_back(x); break; case 1: v.insert(v.cbegin()+pos,x); break; case 2: v.insert(v.cbegin()+pos,3,x); break; case 3: v.insert(v.cbegin()+pos,sv.begin(),sv.end()); break;
        case 4: v.emplace(v.cbegin()+pos,7); break; case 5: v.resize(n+4); break; case 6: v.resize(n+4,x); break; case 7: v.assign(n+3,x); break; case 8: v.assign(sv.begin(),sv.end()); break; case 9: strong=true; v.reserve(n+11); break;
        case 10: v.shrink_to_fit(); break; case 11: { VT c(v); } break; case 12: v=w; break; case 13: { VT c(6); } break; case 14: { VT c(6,x); } break; case 15: { strong=true; v.emplace_back(5); } break; } }
      catch(Boom&){ threw=true; }
      throw_at()=-1; if(what==9||what==0||what==15){} 
      CHECK(v.size()<=v.capacity(),"size exceeds capacity"); for(auto& e: v) e.ok();
      if(threw && strong){ for(size_t i=0;i<n;++i) CHECK(v.size()==n && v[i].v==before[i],"push_back/reserve must leave the vector unchanged when construction throws"); }
      CHECK(cnt().live==(long)(live1-(long)n+(long)v.size()),"element count after an exception");
      v.push_back(T(123)); CHECK(v.back().v==123,"usable after an exception"); v.clear(); }
    CHECK(cnt().live==l0,"elements leaked or destroyed twice after an exception"); CHECK(g_blocks.empty(),"block leaked");
    if(!threw) break; }
  done(); }
// allocators that compare unequal: contents move or copy element by element, blocks go back where they came from
template<class VT> void allocs(const char* nm){ using T=typename VT::value_type; using A=typename VT::allocator_type; constexpr bool prop=std::allocator_traits<A>::propagate_on_container_move_assignment::value; begin(nm); Counts c0=cnt();
  for(size_t n: {0,1,2,5,9}) for(size_t k: {0,1,2,4,9,13}) for(int same_id=0;same_id<2;++same_id){ auto mk=[&](size_t m,int id,int b){ VT v{A(id)}; for(size_t i=0;i<m;++i) v.push_back(V<T>::mk(b+(int)i)); return v; }; int i2=same_id?1:2;
    { newcase(); opf("move assign %zu to %zu allocators 1,%d",k,n,i2); VT v=mk(n,1,1), w=mk(k,i2,50); v=std::move(w); same(v,seq(k,50)); CHECK(v.get_allocator().id==(prop?i2:1),"allocator after move assignment"); v.push_back(V<T>::mk(7)); w.clear(); w.push_back(V<T>::mk(8)); same(w,M{8}); }
    { newcase(); opf("move construct with allocator %zu %d",k,i2); VT w=mk(k,i2,50); VT v(std::move(w),A(1)); same(v,seq(k,50)); CHECK(v.get_allocator().id==1,"allocator given"); v.push_back(V<T>::mk(7)); }
    { newcase(); opf("copy assign %zu to %zu allocators 1,%d",k,n,i2); VT v=mk(n,1,1), w=mk(k,i2,50); v=w; same(v,seq(k,50)); same(w,seq(k,50)); v.push_back(V<T>::mk(7)); VT x(w,A(3)); same(x,seq(k,50)); x.push_back(V<T>::mk(1)); }
    { newcase(); opf("swap %zu %zu allocators 1,%d",k,n,i2); VT v=mk(n,1,1), w=mk(k,i2,50); if(prop||same_id){ v.swap(w); same(v,seq(k,50)); same(w,seq(n,1)); v.push_back(V<T>::mk(7)); w.push_back(V<T>::mk(7)); swap(v,w); } } }
  CHECK(cnt().live==c0.live,"an element was leaked or destroyed twice"); CHECK(g_blocks.empty(),"a block was leaked"); done(); }
// operations in the middle of vectors on both sides of every growth threshold
template<class VT> void sizes(const char* nm){ using T=typename VT::value_type; begin(nm); for(size_t n: {60,64,200,500,511,512,513,1000,1024,2048,3000,4096,9000,16384,20000}) for(int spare=0;spare<3;++spare) for(int what=0;what<9;++what){ if(n>5000&&spare==1) continue; newcase(); M m=seq(n); opf("size %zu spare %d op %d",n,spare,what); VT v=make<VT>(m,spare?n+spare*n/3:0); size_t pos=n/3; size_t c0=v.capacity();
    switch(what){ case 0: v.insert(v.cbegin()+pos,V<T>::mk(-1)); m.insert(m.begin()+pos,-1); break; case 1: v.insert(v.cbegin()+pos,n/2,V<T>::mk(-2)); m.insert(m.begin()+pos,n/2,-2); break; case 2: { M s=seq(n+5,100000); VT w=make<VT>(s,0); v.insert(v.cbegin()+pos,w.begin(),w.end()); m.insert(m.begin()+pos,s.begin(),s.end()); } break; case 3: v.emplace(v.cbegin()+1,V<T>::mk(-3)); m.insert(m.begin()+1,-3); break; case 4: v.insert(v.cend(),7,V<T>::mk(5)); m.insert(m.end(),7,5); break; case 5: v.erase(v.cbegin()+pos,v.cbegin()+pos+n/4); m.erase(m.begin()+pos,m.begin()+pos+n/4); break; case 6: v.resize(n+n/2,V<T>::mk(9)); m.resize(n+n/2,9); break; case 7: v.reserve(2*n+1); CHECK(v.capacity()>=2*n+1,"reserve"); break; case 8: v.shrink_to_fit(); CHECK(v.capacity()==n,"shrink_to_fit"); break; }
    same(v,m); size_t room=v.capacity()-v.size(); const T* d=v.data(); for(size_t i=0;i<room;++i){ v.push_back(V<T>::mk((int)i)); m.push_back((int)i); } CHECK(v.data()==d,"the reported capacity can be used without moving"); same(v,m); (void)c0; v.push_back(V<T>::mk(3)); m.push_back(3); same(v,m); }
  CHECK(g_blocks.empty(),"a block was leaked"); done(); }
template<class VT> void history(const char* nm,size_t runs,size_t steps){ using T=typename VT::value_type; begin(nm); Counts c0=cnt();
  for(size_t r=0;r<runs;++r){ Rng g(seed()*131+r); newcase(); VT v; M m; int nx=1; for(size_t s=0;s<steps;++s){ size_t k=g.below(12), pos=g.below(m.size()+1); 
    switch(k){ case 0: case 1: case 2: opf("push_back %d",nx); v.push_back(V<T>::mk(nx)); m.push_back(nx++); break;
      case 3: opf("emplace at %zu",pos); { auto it=v.emplace(v.cbegin()+pos,V<T>::mk(nx)); CHECK((size_t)(it-v.begin())==pos,"position"); m.insert(m.begin()+pos,nx++); } break;
      case 4: { size_t n=g.below(9); opf("insert %zu at %zu",n,pos); v.insert(v.cbegin()+pos,n,V<T>::mk(nx)); m.insert(m.begin()+pos,n,nx++); } break;
      case 5: { size_t e=pos+g.below(m.size()-pos+1); opf("erase %zu %zu",pos,e); v.erase(v.cbegin()+pos,v.cbegin()+e); m.erase(m.begin()+pos,m.begin()+e); } break;
      case 6: if(!m.empty()){ op("pop"); v.pop_back(); m.pop_back(); } break;
      case 7: { size_t n=g.below(m.size()*2+3); opf("resize %zu",n); v.resize(n,V<T>::mk(nx)); m.resize(n,nx++); } break;
      case 8: op("shrink"); v.shrink_to_fit(); break; case 9: { size_t n=g.below(40); opf("reserve %zu",n); v.reserve(n); CHECK(v.capacity()>=n,"reserve"); } break;
      case 10: if(!m.empty()){ size_t s2=g.below(m.size()); opf("insert own %zu at %zu",s2,pos); v.insert(v.cbegin()+pos,v[s2]); m.insert(m.begin()+pos,int(m[s2])); } break;
      case 11: { VT w(v); v=std::move(w); } break; }
    if(m.size()>200){ v.clear(); m.clear(); } same(v,m); } }
  CHECK(cnt().live==c0.live,"leak"); CHECK(g_blocks.empty(),"block leak"); done(); }
// counts whose byte size does not fit: must be refused, never written out of bounds
template<class T> void huge(const char* nm){ begin(nm); const size_t S=sizeof(T); for(size_t n: { ~size_t(0), ~size_t(0)/2+1, (~size_t(0)/S)+1, (~size_t(0)/S)+2, ~size_t(0)-3 }) for(int what=0;what<7;++what){ newcase(); opf("huge count %zu op %d",n,what); gtl::vector<T> v=make<gtl::vector<T>>(seq(3),0); bool thr=false; try { switch(what){ case 0: v.reserve(n); break; case 1: v.resize(n); break; case 2: v.resize(n,V<T>::mk(1)); break; case 3: v.insert(v.begin()+1,n,V<T>::mk(2)); break; case 4: v.insert(v.end(),n,V<T>::mk(2)); break; case 5: { gtl::vector<T> w(n); } break; case 6: { gtl::vector<T> w(n,V<T>::mk(2)); } } } catch(std::length_error&){ thr=true; } catch(std::bad_alloc&){ thr=true; } CHECK(thr,"a count that cannot be allocated must be refused"); same(v,seq(3)); } done(); }
int main(){
#if VF_PART==1
  oneop<gtl::vector<int>>("vector-int"); oneop<gtl::vector<Big>>("vector-big"); oneop<gtl::vector<std::string>>("vector-string"); oneop<gtl::vector<Mo>>("vector-moveonly");
  oneop<gtl::vector<short,CA<short>>>("vector-int-allocator"); history<gtl::vector<int>>("vector-int-history",thorough()?4000:300,60); history<gtl::vector<std::string>>("vector-string-history",thorough()?2000:150,60);
  history<gtl::vector<long,CA<long>>>("vector-long-alloc-history",thorough()?2000:100,60);
  // growth steps across the 4 KB and 128 KB thresholds
  begin("vector-growth"); { newcase(); gtl::vector<int> v; for(int i=0;i<200000;++i){ size_t c=v.capacity(); v.push_back(i); CHECK(v.capacity()>=v.size(),"room"); if(v.capacity()!=c) for(int j=0;j<=i;j+=1+i/50) CHECK(v[j]==j,"growth keeps elements"); } for(int j=0;j<200000;++j) CHECK(v[j]==j,"growth keeps elements"); newcase(); gtl::vector<Big> b; for(int i=0;i<8000;++i){ b.insert(b.end(),V<Big>::mk(i)); CHECK(b.capacity()>=b.size(),"room"); } for(int j=0;j<8000;++j) CHECK(V<Big>::get(b[j])==j,"growth keeps elements"); } done();
  allocs<gtl::vector<int,CA<int>>>("vector-allocators-int"); allocs<gtl::vector<std::string,PA<std::string>>>("vector-allocators-propagating"); sizes<gtl::vector<long>>("vector-sizes"); sizes<gtl::vector<long,CA<long>>>("vector-sizes-alloc");
  huge<int>("vector-huge-int"); huge<Big>("vector-huge-big");
  begin("vector-defaults"); { newcase(); struct S{int a; int b;}; union U{ int a=5; float f; }; gtl::vector<int S::*> m(3); for(auto p: m) CHECK(p==nullptr,"value-initialised member pointers"); gtl::vector<U> u(3); for(auto& x: u) CHECK(x.a==5,"value-initialised unions"); gtl::vector<int*> p(3); for(auto x: p) CHECK(!x,"null"); gtl::vector<double> d(4); for(auto x: d) CHECK(x==0,"zero"); enum class En: short{A,B}; gtl::vector<En> en(3); for(auto x: en) CHECK(x==En::A,"zero"); } done();
#else
  oneop<gtl::vector<Tr>>("vector-tracked"); oneop<gtl::vector<Tn>>("vector-tracked-nothrow-move"); oneop<gtl::vector<Tr,CA<Tr>>>("vector-tracked-allocator");
  allocs<gtl::vector<Tr,CA<Tr>>>("vector-allocators-tracked"); allocs<gtl::vector<Tn,PA<Tn>>>("vector-allocators-tracked-propagating");
  throwing<gtl::vector<Tr>>("vector-throwing"); throwing<gtl::vector<Tn>>("vector-throwing-nothrow-move"); throwing<gtl::vector<Tr,CA<Tr>>>("vector-throwing-allocator");
  history<gtl::vector<Tr>>("vector-tracked-history",thorough()?3000:150,60); history<gtl::vector<Tn,CA<Tn>>>("vector-tracked-alloc-history",thorough()?2000:80,60);
#endif
  return 0; }
