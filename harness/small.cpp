// C09 C21 C23 C24: small components, whole input domain.
#include "verif.h"
#include <bit>
#include <limits>
#include <gtl/intrusive.hpp>
#include <gtl/utils.hpp>
#include <gtl/adv_utils.hpp>
#include <gtl/phmap_utils.hpp>
#include <tuple>
// ---------------------------------------------------------------- C24
template<class T> static void mid(){ T l=vf_any<T>(), r=vf_any<T>(); vf_assume(l<r); auto m=gtl::middle<T>()(l,r);
  vf_check(m.has_value()==((T)(l+1)!=r),"a midpoint is returned exactly when one lies strictly inside"); if(m) vf_check(l<*m&&*m<r,"the midpoint lies strictly inside the interval"); if(m) vf_cover("some"); else vf_cover("none"); }
HARNESS H_mid_i8(){ mid<int8_t>(); } HARNESS H_mid_u8(){ mid<uint8_t>(); } HARNESS H_mid_i16(){ mid<int16_t>(); } HARNESS H_mid_u16(){ mid<uint16_t>(); } HARNESS H_mid_i32(){ mid<int32_t>(); } HARNESS H_mid_u32(){ mid<uint32_t>(); } HARNESS H_mid_i64(){ mid<int64_t>(); } HARNESS H_mid_u64(){ mid<uint64_t>(); }
static uint64_t dkey(double x){ uint64_t u=std::bit_cast<uint64_t>(x), mag=u&~(1ull<<63); return (u>>63)? (1ull<<63)-mag : (1ull<<63)+mag; } // order-preserving; adjacent finite doubles differ by one
static double anyd(){ uint64_t u=vf_u64(); vf_assume((u&0x7ff0000000000000ull)!=0x7ff0000000000000ull); return std::bit_cast<double>(u); }
HARNESS H_mid_dbl(){ double l=anyd(), r=anyd(); vf_assume(l<r); auto m=gtl::middle<double>()(l,r);
  vf_check(m.has_value()==(dkey(r)-dkey(l)>1),"a midpoint is returned exactly when a double lies strictly inside"); if(m) vf_check(l<*m&&*m<r,"the midpoint lies strictly inside the interval"); if(m) vf_cover("some"); else vf_cover("none"); }
// binary_search: the recursive call is replaced by the contract (induction on the interval length).
template<class T> struct G { static T sw,lo,hi; static unsigned long long meas; static bool done; };
template<class T> T G<T>::sw; template<class T> T G<T>::lo; template<class T> T G<T>::hi; template<class T> unsigned long long G<T>::meas; template<class T> bool G<T>::done;
template<class T> struct Pr { bool operator()(T x) const { vf_check(x>=G<T>::lo&&x<=G<T>::hi,"the predicate is called inside the interval"); return x>=G<T>::sw; } };
template<class T> struct Md { std::optional<T> operator()(T l,T r) { return gtl::middle<T>()(l,r); } };
template<class T> static unsigned long long dist(T l,T r){ if constexpr(std::is_same_v<T,double>) return dkey(r)-dkey(l); else return (unsigned long long)((__int128)r-(__int128)l); }
template<class T> static T pred1(T x){ if constexpr(std::is_same_v<T,double>){ uint64_t k=dkey(x)-1; return std::bit_cast<double>(k>=(1ull<<63)? k-(1ull<<63) : ((1ull<<63)-k)|(1ull<<63)); } else return (T)(x-1); }
template<class T> static std::pair<T,T> bsc(T l,T r){ vf_check(l<r&&l<G<T>::sw&&G<T>::sw<=r,"recursive call: predicate false at the lower and true at the upper end"); vf_check(l>=G<T>::lo&&r<=G<T>::hi,"recursive call: inside the interval"); vf_check(dist<T>(l,r)<G<T>::meas,"recursive call: the interval shrinks"); return {pred1<T>(G<T>::sw),G<T>::sw}; }
template<class T> static void bs(){ T l,r,s; if constexpr(std::is_same_v<T,double>){ l=anyd(); r=anyd(); s=anyd(); } else { l=vf_any<T>(); r=vf_any<T>(); s=vf_any<T>(); } vf_assume(l<s&&s<=r); G<T>::sw=s; G<T>::lo=l; G<T>::hi=r; G<T>::meas=dist<T>(l,r);
  auto q=gtl::binary_search<T,Pr<T>,Md<T>>(Md<T>(),Pr<T>(),l,r); vf_check(q.second==s && dist<T>(q.first,q.second)==1,"neighbouring points around the switch"); vf_cover("end"); }
#define BSR(n,T) HARNESS H_bs_##n(){ bs<T>(); } extern "C" __attribute__((used)) std::pair<T,T> vf_contract_bs_##n(Md<T>&&,Pr<T>&&,T l,T r){ return bsc<T>(l,r); }
BSR(i32,int) BSR(u64,uint64_t) BSR(i64,int64_t) BSR(dbl,double)
// ---------------------------------------------------------------- C09
template<class T> static T anyk(){ if constexpr(std::is_same_v<T,double>) return std::bit_cast<double>(vf_u64()); else if constexpr(std::is_same_v<T,float>) return std::bit_cast<float>(vf_u32()); else return vf_any<T>(); }
template<class T> static void heq(const T& a,const T& b){ if(a==b){ vf_check(gtl::Hash<T>()(a)==gtl::Hash<T>()(b),"equal keys hash equal"); vf_cover("equal"); } }
#define HK(n,T) HARNESS H_hash_##n(){ T a=anyk<T>(), b=anyk<T>(); heq<T>(a,b); }
HK(bool,bool) HK(char,char) HK(schar,signed char) HK(uchar,unsigned char) HK(i16,int16_t) HK(u16,uint16_t) HK(i32,int32_t) HK(u32,uint32_t) HK(i64,int64_t) HK(u64,uint64_t) HK(ll,long long) HK(ull,unsigned long long) HK(wchar,wchar_t) HK(c16,char16_t) HK(c32,char32_t) HK(flt,float) HK(dbl,double)
#ifdef VF_CBMC
// contract of the combining step: a function of its two arguments (its body is checked by H_combiner)
extern "C" { size_t __CPROVER_uninterpreted_comb(size_t,size_t); __attribute__((used,noinline)) size_t vf_contract_comb(void*,size_t h,size_t k){ return __CPROVER_uninterpreted_comb(h,k); } }
#endif
HARNESS H_combiner(){ uint64_t h=vf_u64(), k=vf_u64(); gtl::Combiner<size_t,8> a,b; vf_check(a(h,k)==b(h,k),"the combining step is a function of its arguments"); gtl::Combiner<size_t,4> c,d; vf_check(c(h,k)==d(h,k),"the combining step is a function of its arguments (4)"); vf_cover("end"); }
enum class E1: int8_t {}; enum E2: uint64_t {}; HK(enum8,E1) HK(enum64,E2)
HARNESS H_hash_pair(){ std::pair<double,int> a{anyk<double>(),anyk<int>()}, b{anyk<double>(),anyk<int>()}; heq(a,b); }
HARNESS H_hash_pair2(){ std::pair<int16_t,float> a{anyk<int16_t>(),anyk<float>()}, b{anyk<int16_t>(),anyk<float>()}; heq(a,b); }
HARNESS H_hash_tuple(){ using T=std::tuple<float,std::pair<bool,double>,int64_t>; T a{anyk<float>(),{anyk<bool>(),anyk<double>()},anyk<int64_t>()}, b{anyk<float>(),{anyk<bool>(),anyk<double>()},anyk<int64_t>()}; heq(a,b); }
HARNESS H_hash_ptr(){ static int arr[4]; int* a=arr+vf_below(4); int* b=arr+vf_below(4); heq(a,b); }
HARNESS H_hash_combine(){ uint64_t s=vf_u64(); double a=anyk<double>(), b=anyk<double>(); int c=anyk<int>(); uint8_t d=anyk<uint8_t>(); if(a==b){ vf_check(gtl::HashState().combine(s,a,c,d)==gtl::HashState().combine(s,b,c,d),"combined hash of equal members"); vf_cover("equal"); } }
// ---------------------------------------------------------------- C23
static int n_set,n_unset,n_at;
HARNESS H_guard(){ bool doit=vf_bool(), dis=vf_bool(), early=vf_bool(); n_unset=0; { gtl::scoped_guard g([]{ ++n_unset; },doit); if(early) goto out; if(dis) g.dismiss(); vf_check(n_unset==0,"not run early"); } out: vf_check(n_unset==(doit&&(early||!dis)? 1:0),"scoped_guard runs its action exactly once unless dismissed or disabled"); vf_cover("end"); }
HARNESS H_setunset(){ bool doit=vf_bool(), dis=vf_bool(); n_set=n_unset=0; { gtl::scoped_set_unset g([]{ ++n_set; },[]{ vf_check(n_set==1,"exit action after the entry action"); ++n_unset; },doit); vf_check(n_set==(doit?1:0)&&n_unset==0,"the entry action runs once, at entry"); if(dis) g.dismiss(); } vf_check(n_set==(doit?1:0)&&n_unset==(doit&&!dis?1:0),"scoped_set_unset runs its exit action exactly once unless dismissed or disabled"); vf_cover("end"); }
struct Tr { int v; bool moved=false; Tr(int x=0):v(x){} Tr(const Tr& o):v(o.v){ vf_check(!o.moved,"a moved-from value is not copied"); } Tr(Tr&& o):v(o.v){ vf_check(!o.moved,"a moved-from value is not moved again"); o.moved=true; o.v=(int)0xdeadbeef; } Tr& operator=(const Tr& o){ if(this!=&o){ vf_check(!o.moved,"a moved-from value is not copied"); v=o.v; moved=false; } return *this; } Tr& operator=(Tr&& o){ if(this!=&o){ vf_check(!o.moved,"a moved-from value is not moved again"); v=o.v; moved=false; o.moved=true; o.v=(int)0xdeadbeef; } return *this; } bool operator==(const Tr& o) const { vf_check(!moved&&!o.moved,"moved-from values are not compared"); return v==o.v; } bool operator!=(const Tr& o) const { return !(*this==o); } };
template<class T> static int iv(const T& x){ if constexpr(std::is_same_v<T,Tr>){ vf_check(!x.moved,"the variable holds a value"); return x.v; } else return (int)x; }
template<class T> static void setval(){ bool doit=vf_bool(), dis=vf_bool(); int o=(int)vf_u32(), n=(int)vf_u32(), w=(int)vf_u32(); T x(o); { gtl::scoped_set_value<T> g(x,T(n),doit); vf_check(iv(x)==(doit?n:o),"the value is set at entry"); x=T(w); if(dis) g.dismiss(); } vf_check(iv(x)==(doit&&!dis? o:w),"the previous value is restored at exit unless dismissed or disabled"); vf_cover("end"); }
HARNESS H_setvalue_int(){ setval<int>(); } HARNESS H_setvalue_obj(){ setval<Tr>(); }
HARNESS H_setvalue_nest(){ int a=(int)vf_u32(), b=(int)vf_u32(), c=(int)vf_u32(); bool d1=vf_bool(), d2=vf_bool(); int x=a; { gtl::scoped_set_value<int> g(x,b,d1); int mid=x; { gtl::scoped_set_value<int> h(x,c,d2); } vf_check(x==mid,"nested: the inner guard restores the outer value"); } vf_check(x==a,"nested: the outer guard restores the original value"); vf_cover("end"); }
template<class T> static void chg(){ int a=(int)vf_u32(), b=(int)vf_u32(); T x(a); T y(b); bool r=gtl::change(x,y); vf_check(r==(a!=b)&&iv(x)==b&&iv(y)==b,"change reports and performs a change exactly when the value differs"); T x2(a); bool r2=gtl::change(x2,T(b)); vf_check(r2==(a!=b)&&iv(x2)==b,"change from a temporary"); T x3(a), y3(b); T old=gtl::replace(x3,y3); vf_check(iv(old)==a&&iv(x3)==b&&iv(y3)==b,"replace returns the old value"); T x4(a); T o4=gtl::replace(x4,T(b)); vf_check(iv(o4)==a&&iv(x4)==b,"replace from a temporary"); vf_cover("end"); }
HARNESS H_change_int(){ chg<int>(); } HARNESS H_change_obj(){ chg<Tr>(); }
HARNESS H_change_dbl(){ double a=anyk<double>(), b=anyk<double>(); vf_assume(a==a&&b==b); double x=a; bool r=gtl::change(x,b); vf_check(r==(a!=b)&&x==b,"change on doubles"); vf_cover("end"); }
using gtl::timestamp;
static timestamp any_ts(){ uint64_t s=vf_u64(); vf_assume(s<=timestamp::clock_); return timestamp(s); }
static void clk(){ timestamp::clock_=vf_u64(); vf_assume(timestamp::clock_<~0ull-8); }
HARNESS H_ts_new(){ clk(); timestamp a=any_ts(); timestamp b; vf_check(b.is_newer_than(a)&&a.is_older_than(b)&&b>a&&a<b&&!(a==b)&&!(a>b)&&!(b<a)&&b.is_set(),"a stamp taken later is newer than every earlier one"); timestamp c; vf_check(c>b&&c>a,"and so is the next"); vf_cover("end"); }
HARNESS H_ts_touch(){ clk(); timestamp a=any_ts(), b=any_ts(), o=any_ts(); uint64_t bo=b.get(), oo=o.get(); a.touch(); vf_check(a>b&&a>o&&b.get()==bo,"touch renews"); timestamp d=any_ts(); d.touch(o); vf_check(d==o&&d.get()==oo&&o.get()==oo,"touch(o) copies the stamp"); a.reset(); vf_check(!a.is_set()&&a.get()==0&&!(a>b),"reset"); a.touch(); vf_check(a>b&&a>o&&a>d,"touch after reset"); timestamp e; vf_check(e>a,"later stamp"); vf_cover("end"); }
HARNESS H_ts_or(){ clk(); timestamp a=any_ts(), b=any_ts(); uint64_t x=a.get(), y=b.get(); timestamp c=a|b; vf_check(c.get()==(x>y?x:y)&&a.get()==x&&b.get()==y,"combining two stamps yields the newer one"); timestamp& r=(a|=b); vf_check(&r==&a&&a.get()==(x>y?x:y)&&b.get()==y,"combining assignment"); vf_check(a.get_timestamp()==a,"get_timestamp"); vf_check(timestamp(x).is_newer_than(timestamp(y))==(x>y)&&timestamp(x).is_older_than(timestamp(y))==(x<y)&&(timestamp(x)==timestamp(y))==(x==y),"order"); vf_cover("end"); }
template<class T> static void tset(){ clk(); timestamp t=any_ts(), o=any_ts(); uint64_t s0=t.get(); int a=(int)vf_u32(), b=(int)vf_u32(); T x(a); bool r=t.set_with_ts(x,T(b)); vf_check(r==(a!=b)&&iv(x)==b,"tracked assignment stores the value and reports a change"); vf_check(a!=b? (t>o&&t.get()>s0) : t.get()==s0,"the stamp is renewed exactly when the value changes"); T y(b); uint64_t s1=t.get(); vf_check(!t.set_with_ts(x,y)&&t.get()==s1&&iv(y)==b,"same value again: no renewal"); vf_cover("end"); }
HARNESS H_ts_set_int(){ tset<int>(); } HARNESS H_ts_set_obj(){ tset<Tr>(); }
struct Prov: gtl::provides_timestamp<Prov> { timestamp t; Prov(timestamp x):t(x){} timestamp get_timestamp() const { return t; } };
HARNESS H_ts_prov(){ clk(); timestamp a=any_ts(), b=any_ts(); Prov p(a), q(b); vf_check(p.is_newer_than(q)==(a>b)&&p.is_older_than(q)==(a<b)&&p.is_newer_than(b)==(a>b),"provides_timestamp compares the stamps"); vf_check((p|q)==(a>b?a:b)&&(p|b)==(a>b?a:b),"provides_timestamp combines the stamps"); vf_cover("end"); }
// ---------------------------------------------------------------- C21
template<class C> struct Ob: gtl::intrusive_ref_counter<Ob<C>,C> { int id; int pay; Ob(int i):id(i),pay(0){} Ob(const Ob&)=default; Ob& operator=(const Ob&)=default; virtual ~Ob(); };
template<class C> struct Dr: Ob<C> { int more; Dr(int i):Ob<C>(i),more(0){} };
static int dead[3]; template<class C> Ob<C>::~Ob(){ ++dead[id]; }
#ifndef VF_CNT
#define VF_CNT gtl::thread_unsafe_counter
#endif
using O=Ob<VF_CNT>; using D=Dr<VF_CNT>; using PO=gtl::intrusive_ptr<O>; using PD=gtl::intrusive_ptr<D>;
struct W { D* o[2]; unsigned oth[2]; bool alive0[2]; D* at(unsigned i){ return i==2? nullptr:o[i]; } };
// p and q are arbitrary owners; every object has an arbitrary number of further owners elsewhere
struct St { W w; unsigned ip, iq; 
  void init(PO& p,PO& q){ for(int i=0;i<2;++i){ dead[i]=0; w.o[i]=new D(i); w.oth[i]=vf_u32(); vf_assume(w.oth[i]<0x7fffffff); } ip=(unsigned)vf_upto(2); iq=(unsigned)vf_upto(2); p.px=w.at(ip); q.px=w.at(iq); for(unsigned i=0;i<2;++i) w.o[i]->_refcount=w.oth[i]+(ip==i)+(iq==i); }
  void now(unsigned np,unsigned nq,int extra0=0,int extra1=0){ int ex[2]={extra0,extra1}; for(unsigned i=0;i<2;++i){ unsigned before=w.oth[i]+(ip==i)+(iq==i); unsigned n=w.oth[i]+(np==i)+(nq==i)+ex[i]; if(before==0&&n==0) { vf_check(dead[i]==0,"an object without owners is left alone"); } else if(n==0) vf_check(dead[i]==1,"the object is destroyed exactly when its last owner goes away"); else { vf_check(dead[i]==0,"an owned object is not destroyed"); vf_check(w.o[i]->use_count()==n,"the use count equals the number of owning pointers"); } } }
  bool freed(unsigned i){ return i<2&&dead[i]; }
};
static O* U(D* d){ return d; }
// body: leaves p,q pointing at np,nq.  Then both go away.
#define IP(n,...) HARNESS H_ip_##n(){ St s; unsigned np,nq; int e0=0,e1=0; { PO p,q; s.init(p,q); W& w=s.w; unsigned ip=s.ip, iq=s.iq; np=ip; nq=iq; __VA_ARGS__; vf_check(p.get()==w.at(np)&&q.get()==w.at(nq),"the pointers hold what was assigned"); vf_check((bool)p==(np<2)&&(p==nullptr)==(np==2),"null test"); s.now(np,nq,e0,e1); } \
  { for(unsigned i=0;i<2;++i){ unsigned before=s.w.oth[i]+(s.ip==i)+(s.iq==i)+(np==i||nq==i); unsigned n=s.w.oth[i]+(i?e1:e0); if(n==0&&before!=0) vf_check(dead[i]==1,"destroyed exactly with the last owner"); else { vf_check(dead[i]==0,"still owned elsewhere"); vf_check(s.w.o[i]->use_count()==n,"the remaining owners are counted"); } } } vf_cover("end"); }
IP(none,)
IP(copy_assign, p=q; np=iq)
IP(move_assign, p=std::move(q); np=iq; nq=2)
IP(self_copy, p=*&p)
IP(self_move, PO& r=p; p=std::move(r))
IP(raw_assign, unsigned k=(unsigned)vf_upto(2); p=U(w.at(k)); np=k)
IP(reset, p.reset(); np=2)
IP(reset_raw, unsigned k=(unsigned)vf_upto(2); vf_assume(k==2||w.oth[k]>0||ip==k||iq==k||ip==2); p.reset(U(w.at(k))); np=k)
IP(reset_add, unsigned k=(unsigned)vf_upto(2); p.reset(U(w.at(k)),true); np=k)
IP(swap_m, p.swap(q); np=iq; nq=ip)
IP(swap_f, swap(p,q); np=iq; nq=ip)
IP(swap_self, p.swap(p))
IP(copy_ctor, { PO t(q); if(iq<2){ vf_check(t->use_count()==w.oth[iq]+(ip==iq)+2,"a copy adds one owner"); vf_check(t==q&&&*t==w.at(iq),"a copy points to the same object"); } })
IP(move_ctor, { PO t(std::move(q)); vf_check(t.get()==w.at(iq)&&!q,"a move transfers"); if(iq<2) vf_check(t->use_count()==w.oth[iq]+(ip==iq)+1,"a move adds no owner"); p=std::move(t); vf_check(!t,"empty after move"); } np=iq; nq=2)
IP(raw_ctor, { unsigned k=(unsigned)vf_upto(2); vf_assume(k==2||w.oth[k]>0||ip==k||iq==k); PO t(U(w.at(k))); if(k<2) vf_check(t->use_count()==w.oth[k]+(ip==k)+(iq==k)+1,"construction from a raw pointer adds one owner"); })
IP(detach, O* r=p.detach(); vf_check(r==U(w.at(ip)),"detach returns the pointer"); if(ip==0) e0=1; if(ip==1) e1=1; np=2)
IP(adopt, unsigned k=(unsigned)vf_below(2); vf_assume(w.oth[k]>0); PO t(U(w.at(k)),false); vf_check(t->use_count()==w.oth[k]+(ip==k)+(iq==k),"adopting adds no owner"); p=t; t.detach(); np=k)
IP(adopt_reset, unsigned k=(unsigned)vf_below(2); vf_assume(w.oth[k]>0); p.reset(U(w.at(k)),false); if(k==0) e0=-1; else e1=-1; np=k)
IP(conv_copy, PD d(w.at(iq)); p=d; d.reset(); np=iq; vf_assume(iq<2||true))
IP(conv_move, vf_assume(iq<2); PD d(w.at(iq)); p=std::move(d); vf_check(!d||d.get()==w.at(iq),"the source of a converting move keeps or gives up its object"); d.reset(); np=iq)
IP(conv_ctor, vf_assume(iq<2); { PD d(w.at(iq)); PO a(d); PO b((PD(d))); vf_check(a==d&&b==d&&a->use_count()==w.oth[iq]+(ip==iq)+4,"conversions count"); })
IP(static_cast_copy, vf_assume(iq<2); { PD d=gtl::static_pointer_cast<D>(q); vf_check(d.get()==w.at(iq)&&q.get()==U(w.at(iq))&&d->use_count()==w.oth[iq]+(ip==iq)+2,"static cast of a copy"); })
IP(static_cast_move, { PD d=gtl::static_pointer_cast<D>(std::move(q)); vf_check(d.get()==w.at(iq)&&!q,"static cast of an rvalue transfers"); if(iq<2) vf_check(d->use_count()==w.oth[iq]+(ip==iq)+1,"static cast of an rvalue adds no owner"); p=std::move(d); } np=iq; nq=2)
IP(const_cast_copy, { gtl::intrusive_ptr<const O> c(q); PO r=gtl::const_pointer_cast<O>(c); vf_check(r==q,"const cast"); if(iq<2) vf_check(r->use_count()==w.oth[iq]+(ip==iq)+3,"const cast of a copy counts"); PO r2=gtl::const_pointer_cast<O>(std::move(c)); vf_check(r2==q&&!c,"const cast of an rvalue transfers"); if(iq<2) vf_check(r->use_count()==w.oth[iq]+(ip==iq)+3,"const cast of an rvalue adds no owner"); })
IP(compare, vf_check((p==q)==(ip==iq)&&(p!=q)==(ip!=iq)&&(p==U(w.at(iq)))==(ip==iq)&&(p!=U(w.at(iq)))==(ip!=iq)&&(U(w.at(ip))==q)==(ip==iq)&&(p!=nullptr)==(ip!=2),"comparisons"); vf_check(get_pointer(p)==U(w.at(ip)),"get_pointer"); if(p==q) vf_check(hash_value(p)==hash_value(q)&&std::hash<PO>()(p)==std::hash<PO>()(q),"equal pointers hash equal"))
IP(object_copy, if(ip<2){ O t(*p); vf_check(t.use_count()==0,"a copied object has no owner"); t.id=2; if(iq<2){ int id=q->id; unsigned c=q->use_count(); *q=*p; q->id=id; vf_check(q->use_count()==c,"assigning the object leaves its count"); } })
IP(chain, PO t=p; p=q; q=t; t=nullptr; np=iq; nq=ip)
// the thread-safe counter: other owners copy and release between any two atomic operations
extern "C" void vf_contract_atomic(void*);
static bool ts_on, ts_gone; static unsigned ts_oth; static D* ts_obj; static unsigned ts_ops;
#ifdef VF_ATOMIC
extern "C" __attribute__((used,noinline)) void vf_contract_atomic(void* a){ if(!ts_on) return; ++ts_ops; vf_check(!ts_gone,"the counter is not touched after the object may be gone"); vf_check(dead[0]==0,"the counter is not touched after destruction"); 
  unsigned n=vf_u32(); vf_assume(n<0x7fffffff); if(ts_oth==0) vf_assume(n==0); unsigned* c=(unsigned*)&ts_obj->_refcount; vf_check(a==(void*)c,"the atomic operation is on the reference count"); *c=*c+(n-ts_oth); ts_oth=n; if(*c==0&&n==0) ts_gone=true; }
static void ts_init(unsigned mine){ dead[0]=0; ts_obj=new D(0); ts_oth=vf_u32(); vf_assume(ts_oth<0x7fffffff); *(unsigned*)&ts_obj->_refcount=ts_oth+mine; ts_gone=false; ts_ops=0; ts_on=true; }
HARNESS H_ts_release(){ ts_init(1); intrusive_ptr_release(U(ts_obj)); ts_on=false; vf_check(ts_ops>0,"release uses the atomic counter"); vf_check(dead[0]==(ts_oth==0&&!ts_gone?1:0),"the object is destroyed exactly by the owner that released last"); if(!dead[0]&&!ts_gone) vf_check(ts_obj->use_count()==ts_oth,"the count equals the remaining owners"); vf_cover("end"); }
HARNESS H_ts_addref(){ ts_init(1); intrusive_ptr_add_ref(U(ts_obj)); ts_on=false; vf_check(ts_ops>0,"add_ref uses the atomic counter"); vf_check(dead[0]==0&&!ts_gone&&ts_obj->use_count()==ts_oth+2,"no concurrent change is lost"); vf_cover("end"); }
HARNESS H_ts_copies(){ ts_init(1); { PO p(U(ts_obj),false); { PO q(p); } p.reset(); } ts_on=false; vf_check(dead[0]==(ts_oth==0&&!ts_gone?1:0),"copies and releases balance under interference"); vf_cover("end"); }
#endif
