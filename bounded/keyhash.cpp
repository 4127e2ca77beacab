// Bounded stand-in for C09: equal keys hash equal, for every provided key type; hashes are functions of the value.
#include "common.hpp"
#include <gtl/phmap.hpp>
#include <gtl/bit_vector.hpp>
#include <gtl/intrusive.hpp>
#include <cmath>
#include <limits>
#include <memory>
#include <tuple>
using namespace bd;
template<class T> using DH=gtl::priv::hash_default_hash<T>; template<class T> using DE=gtl::priv::hash_default_eq<T>;
template<class T> void eqh(const T& a,const T& b){ ++ncases(); if(DE<T>()(a,b)){ CHECK(DH<T>()(a)==DH<T>()(b),"equal keys hash equal"); CHECK(gtl::Hash<T>()(a)==gtl::Hash<T>()(b),"gtl::Hash of equal keys"); gtl::flat_hash_set<T> s; s.insert(a); CHECK(s.contains(b),"a container finds an equal key"); gtl::flat_hash_set<T> s2; CHECK(s.hash(a)==s2.hash(b),"same hash in two containers"); s.insert(b); CHECK(s.size()==1,"equal keys are one entry"); } CHECK(DH<T>()(a)==DH<T>()(a),"hash is repeatable"); }
template<class T> void pairs(const std::vector<T>& v){ for(auto&& a: v) for(auto&& b: v) eqh<T>(a,b); }
// the same value in storage with other bytes around it
template<class T> T dirty(const T& v,int fill){ alignas(T) unsigned char raw[sizeof(T)]; memset(raw,fill,sizeof raw); T* p=new(raw) T(v); T r=*p; size_t h=gtl::Hash<T>()(*p); CHECK(h==gtl::Hash<T>()(v),"hash depends on the value only"); p->~T(); return r; }
enum class E8: int8_t { a=-1,b=0,c=5 }; enum E32 { x0=0,x1=7 };
struct Pt { int x; double y; std::string s; bool operator==(const Pt& o) const { return x==o.x&&y==o.y&&s==o.s; } friend size_t hash_value(const Pt& p){ return gtl::HashState().combine(0,p.x,p.y,p.s); } };
struct Obj: gtl::intrusive_ref_counter<Obj,gtl::thread_safe_counter> {};
template<class T> std::vector<T> ints(){ using L=std::numeric_limits<T>; std::vector<T> v; for(long long i=-300;i<=300;++i) v.push_back((T)i); for(int s=0;s<(int)sizeof(T)*8;++s){ v.push_back((T)(1ull<<s)); v.push_back((T)((1ull<<s)-1)); } v.push_back(L::max()); v.push_back(L::min()); return v; }
template<class T> void intt(){ for(T a: ints<T>()){ eqh<T>(a,(T)(a)); volatile T w=a; eqh<T>(a,T(w)); dirty<T>(a,0xAA); } }
template<class T> void flt(){ using L=std::numeric_limits<T>; std::vector<T> v={T(0),-T(0),L::min(),-L::min(),L::denorm_min(),-L::denorm_min(),L::max(),L::lowest(),L::infinity(),-L::infinity(),T(1),T(-1),T(0.1),T(1)/3}; Rng r(seed()); for(int i=0;i<30;++i) v.push_back(std::ldexp(T(r.next()%100000)-50000,(int)r.below(200)-100)); pairs(v); for(T x: v) for(T z: {T(0),-T(0)}){ eqh<std::pair<T,int>>({x,1},{x,1}); eqh<std::pair<int,T>>({1,z},{1,-z}); eqh<std::pair<T,T>>({x,z},{x,-z}); eqh<std::tuple<T,T,int>>({z,x,3},{-z,x,3}); eqh<std::tuple<std::pair<T,int>,T>>({{z,1},x},{{-z,1},x}); size_t h1=gtl::HashState().combine(7,x,z,1),h2=gtl::HashState().combine(7,x,-z,1); CHECK(h1==h2,"combined state of equal members"); } CHECK(gtl::Hash<T>()(T(0))==gtl::Hash<T>()(-T(0)),"+0.0 and -0.0"); }
int main(){
  begin("integers"); newcase(); intt<char>(); intt<signed char>(); intt<unsigned char>(); intt<short>(); intt<unsigned short>(); intt<int>(); intt<unsigned>(); intt<long>(); intt<unsigned long>(); intt<long long>(); intt<unsigned long long>(); intt<wchar_t>(); intt<char16_t>(); intt<char32_t>(); pairs<bool>({true,false}); pairs<E8>({E8::a,E8::b,E8::c}); pairs<E32>({x0,x1}); done();
  begin("floating point"); newcase(); flt<float>(); flt<double>(); flt<long double>(); done();
  begin("strings"); newcase(); { Rng r(seed()); for(int i=0;i<400;++i){ std::string a(r.below(70),'x'); for(auto& c:a) c=(char)r.below(256); std::string b; b.reserve(300); b+=a; b.shrink_to_fit(); b.reserve(200+i); eqh(a,b); std::string big="zz"+a+"yy"; std::string_view v(big.data()+2,a.size()); auto H=DH<std::string>(); CHECK(H(a)==H(v) && DH<std::string_view>()(v)==H(a),"string and view of equal text"); gtl::flat_hash_set<std::string> s{a}; CHECK(s.contains(v),"heterogeneous lookup"); if(a.find('\0')==a.npos) CHECK(H(a.c_str())==H(a) && s.contains(a.c_str()),"C string of equal text"); std::wstring w(a.begin(),a.end()); std::wstring bigw=L"q"+w+L"r"; CHECK(DH<std::wstring>()(w)==DH<std::wstring>()(std::wstring_view(bigw).substr(1,w.size())),"wide"); std::u16string u(a.begin(),a.end()); std::u16string u2=u+u"t"; CHECK(DH<std::u16string>()(u)==DH<std::u16string>()(std::u16string_view(u2).substr(0,u.size())),"u16"); eqh<std::pair<std::string,int>>({a,i},{b,i}); eqh<std::tuple<std::string,std::string>>({a,b},{b,a}); ++ncases(); } } done();
  begin("pointers"); newcase(); { int arr[20]; for(auto& x: arr){ int* p=&x; const int* q=&x; auto H=DH<int*>(); CHECK(H(p)==H(q) && DE<int*>()(p,q),"pointer and const pointer"); eqh<int*>(p,&arr[&x-arr]); eqh<std::pair<int*,int>>({p,1},{p,1}); } for(int i=0;i<20;++i){ auto u=std::make_unique<int>(i); auto H=DH<std::unique_ptr<int>>(); CHECK(H(u)==H(u.get()),"unique_ptr and raw"); std::shared_ptr<int> a=std::make_shared<int>(1),b=a; eqh(a,b); CHECK(DH<std::shared_ptr<int>>()(a)==DH<std::shared_ptr<int>>()(b.get()),"shared_ptr and raw"); gtl::intrusive_ptr<Obj> x(new Obj),y=x; CHECK(std::hash<gtl::intrusive_ptr<Obj>>()(x)==std::hash<gtl::intrusive_ptr<Obj>>()(y) && hash_value(x)==hash_value(y) && gtl::Hash<gtl::intrusive_ptr<Obj>>()(x)==gtl::Hash<gtl::intrusive_ptr<Obj>>()(y),"intrusive pointers"); ++ncases(); } } done();
  begin("structures"); newcase(); { eqh(Pt{1,0.0,"a"},Pt{1,-0.0,"a"}); eqh(Pt{-1,2.5,""},Pt{-1,2.5,std::string()}); for(int f: {0,0xFF,0x5A}){ dirty<std::pair<char,int>>({'a',7},f); dirty<std::tuple<bool,double,short>>({true,1.5,-3},f); dirty<std::pair<short,long>>({-1,4},f); } eqh<std::tuple<>>({},{}); eqh<std::tuple<std::tuple<int,int>,std::pair<bool,char>>>({{1,2},{true,'x'}},{{1,2},{true,'x'}}); } done();
  begin("bit vectors"); newcase(); { Rng r(seed()); for(int i=0;i<300;++i){ size_t n=r.below(200); gtl::bit_vector a(n), b(n+70,true); b.resize(n); for(size_t k=0;k<n;++k){ bool v=r.one_in(2); v? a.set(k):a.reset(k); v? b.set(k):b.reset(k); } CHECK(a==b,"same bits"); eqh(a,b); a.flip(); b.flip(); eqh(a,b); a.set(); b.set(); eqh(a,b); } } done();
  return 0; }
