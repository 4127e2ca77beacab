// C06/C07: the real parallel_hash_set / parallel_hash_map code, checked function by function against the *contract* of its
// inner table.  parallel_hash_set takes the inner table as a template parameter (RefSet); here that parameter is Shard, which
// states the contract of raw_hash_set's operations (preconditions checked, postconditions assumed) over the ghost state of one
// arbitrary key K0, plus an arbitrary number of other entries.  The mutex is a ghost mutex; acquiring it yields an arbitrary
// state that satisfies the invariant (other threads may have run), unless the run is sequential.
#include "verif.h"
#include <mutex>
#include <shared_mutex>
#include <array>
#include <vector>
#ifndef VF_N
#define VF_N 2
#endif
constexpr int NT=1<<VF_N, NID=2*NT;
// ---- ghost state ----
struct Ghost { bool x, s; bool touched; bool has; bool prep, built; size_t n, off; int val, acq_val; bool acq_has; };
static Ghost G[NID]; static int n_mtx, n_set;
static int K0; static size_t HV; static bool conc, inop, deref_lock=true, unlocked_ok; static size_t SH; // K0, its hash, its shard
static int n_ins, n_del, n_asg, n_clear, n_acq, n_find; static bool found_last;
static void havoc(int i){ if(!conc) return; G[i].has=vf_bool(); G[i].val=(int)vf_u32(); G[i].n=vf_u64(); G[i].off=vf_u64(); vf_assume(G[i].n<(1ull<<40)); if(G[i].has) vf_assume(G[i].off<G[i].n); }
static void load(int); static void sync(int);
static void acquired(int i){ havoc(i); load(i); G[i].acq_val=G[i].val; G[i].acq_has=G[i].has; ++n_acq; n_find=0; }
static void ghost_lock(int i){ vf_check(!G[i].x&&!G[i].s,"a shard lock is not taken twice"); G[i].x=true; acquired(i); }
static void ghost_unlock(int i){ vf_check(G[i].x,"unlock() releases an exclusive lock that is held"); vf_check(!G[i].prep,"no half-inserted entry when the lock is released"); G[i].x=false; if(G[i].has) sync(i); G[i].acq_val=G[i].val; }
static bool ghost_try(int i){ ghost_lock(i); return true; }
static void ghost_lock_s(int i){ vf_check(!G[i].x&&!G[i].s,"a shard lock is not taken twice"); G[i].s=true; acquired(i); }
static void ghost_unlock_s(int i){ vf_check(G[i].s,"unlock_shared() releases a shared lock that is held"); if(G[i].has) sync(i); vf_check(G[i].acq_val==G[i].val&&G[i].acq_has==G[i].has,"nothing is modified under a shared lock"); G[i].s=false; }
struct GM { int id; GM():id(n_mtx++){} GM(const GM&)=delete; void lock(){ ghost_lock(id); } void unlock(){ ghost_unlock(id); } bool try_lock(){ return ghost_try(id); } };
struct GS { int id; GS():id(n_mtx++){} GS(const GS&)=delete; void lock(){ ghost_lock(id); } void unlock(){ ghost_unlock(id); } bool try_lock(){ return ghost_try(id); } void lock_shared(){ ghost_lock_s(id); } void unlock_shared(){ ghost_unlock_s(id); } bool try_lock_shared(){ ghost_lock_s(id); return true; } };
namespace std { using vf_shared_mutex = ::GS; }
#define shared_mutex vf_shared_mutex      // LockableImpl<std::shared_mutex> is instantiated on the ghost mutex
#include <gtl/phmap.hpp>
#include <iostream>
namespace std { struct vf_stream { template<class T> vf_stream& operator<<(const T&){ return *this; } }; static vf_stream vf_cerr; static int vf_endl; } // diagnostics are dropped
#define cerr vf_cerr
#define endl vf_endl
#include <gtl/phmap_dump.hpp>
#undef cerr
#undef endl
#undef shared_mutex
using namespace gtl; using namespace gtl::priv;
using P=FlatHashMapPolicy<int,int>; using PT=hash_policy_traits<P>; using Slot=PT::slot_type; using Al=std::allocator<std::pair<const int,int>>;
struct Hs { size_t salt; size_t operator()(int k) const { return salt^(size_t)(unsigned)k; } };
#ifdef VF_CBMC
// contract of the bit mixer: a function of its argument
extern "C" { size_t vf_opaque(); __attribute__((used,noinline)) size_t vf_mix(const void*,size_t a){ static bool s; static size_t in,out; if(s&&in==a) return out; size_t r=vf_opaque(); if(!s){ s=true; in=a; out=r; } return r; } }
#endif
struct Eq { bool operator()(int a,int b) const { return a==b; } };
union SlotU { Slot s; SlotU(){} ~SlotU(){} }; static SlotU slotu[NID]; struct SlotArr { Slot& operator[](int i) const { return slotu[i].s; } }; static const SlotArr slot; static bool xl(int i){ return G[i].x; } static bool rl(int i){ return G[i].x||G[i].s; }
static void rd(int i,const char* w){ vf_check(!inop||unlocked_ok||rl(i),w); } static void wr(int i,const char* w){ G[i].touched=true; vf_check(!inop||unlocked_ok||xl(i),w); }
static void load(int i){ slot[i].mutable_value.first=K0; slot[i].mutable_value.second=G[i].val; }
static void sync(int i){ G[i].val=slot[i].value.second; }
template<class Pol,class H,class E,class A> struct Shard {
  using value_type=std::pair<const int,int>; using allocator_type=A; using slot_type=Slot; using key_type=int;
  // contents as a whole: which table they came from (-2: moved away)
  int from=-1; int contents() const { return from==-1? id:from; }
  Shard(const Shard& o):id(-3),h(o.h),eq(o.eq),al(o.al),from(o.contents()){} Shard(const Shard& o,const A&):Shard(o){} Shard(Shard&& o):id(-3),h(o.h),eq(o.eq),al(o.al),from(o.contents()){ o.from=-2; } Shard(Shard&& o,const A&):Shard(std::move(o)){}
  Shard& operator=(const Shard& o){ h=o.h; from=o.contents(); if(id>=0) G[id].touched=true; ++n_asg; return *this; } Shard& operator=(Shard&& o){ h=o.h; int f=o.contents(); o.from=-2; from=f; if(id>=0) G[id].touched=true; ++n_asg; return *this; }
  int id; H h; E eq; A al; Shard():id(n_set++){} Shard(size_t,const H& hh,const E& e,const A& a):id(n_set++),h(hh),eq(e),al(a){}
  struct iterator { const Shard* s=nullptr; size_t p=0; value_type& operator*() const { int i=s->id; if(deref_lock) rd(i,"entries are accessed under the lock of their shard"); if(G[i].has&&p==G[i].off) return slot[i].value; static value_type other(0,0); return other; } value_type* operator->() const { return &**this; } iterator& operator++(){ rd(s->id,"iteration under the shard lock"); ++p; return *this; } iterator operator++(int){ auto t=*this; ++*this; return t; } friend bool operator==(const iterator& a,const iterator& b){ return a.s==b.s&&a.p==b.p; } friend bool operator!=(const iterator& a,const iterator& b){ return !(a==b); } };
  struct const_iterator { iterator i; const_iterator()=default; const_iterator(iterator x):i(x){} const value_type& operator*() const { return *i; } const value_type* operator->() const { return &*i; } const_iterator& operator++(){ ++i; return *this; } friend bool operator==(const const_iterator& a,const const_iterator& b){ return a.i==b.i; } friend bool operator!=(const const_iterator& a,const const_iterator& b){ return !(a==b); } };
  struct constructor { Shard* s; template<class... Args> void operator()(Args&&... a) const { int i=s->id; wr(i,"construct under the exclusive lock"); vf_check(G[i].prep&&!G[i].built,"one entry is constructed, in the prepared slot"); PT::construct(&s->al,&slot[i],std::forward<Args>(a)...); vf_check(slot[i].value.first==K0,"the entry built has the key asked for"); sync(i); G[i].built=true; } };
  using node_type=node_handle<Pol,hash_policy_traits<Pol>,A>; using insert_return_type=InsertReturnType<iterator,node_type>;
  void key(int k,size_t hv,const char* w) const { vf_check(k==K0,"the key is passed on"); vf_check(hv==HV,"the hash passed on is the hash of the key"); vf_check(id%NT==(int)SH,w); }
  static constexpr const char* SHARD="the shard used is the one selected by the hash";
  iterator at(size_t p) const { return iterator{this,p}; }
  iterator begin(){ rd(id,"begin() under the shard lock"); return at(0); } iterator end(){ rd(id,"end() under the shard lock"); return at(G[id].n); }
  const_iterator begin() const { rd(id,"begin() under the shard lock"); return at(0); } const_iterator end() const { rd(id,"end() under the shard lock"); return at(G[id].n); }
  size_t size() const { return G[id].n; } size_t capacity() const { return G[id].n*2+1; } bool empty() const { return G[id].n==0; } size_t bucket_count() const { rd(id,"bucket_count under the shard lock"); return G[id].n*2+1; }
  size_t _find_key(int k,size_t hv) const { rd(id,"lookup under the shard lock"); key(k,hv,SHARD); load(id); ++n_find; found_last=G[id].has; return G[id].has? G[id].off:(size_t)-1; }
  size_t _find_key(int k,size_t hv) { return ((const Shard*)this)->_find_key(k,hv); }
  iterator find(int k,size_t hv){ size_t o=_find_key(k,hv); return at(o==(size_t)-1? G[id].n:o); } const_iterator find(int k,size_t hv) const { size_t o=_find_key(k,hv); return at(o==(size_t)-1? G[id].n:o); }
  iterator find(int k){ return find(k,HV); } const_iterator find(int k) const { return find(k,HV); }
  bool contains(int k,size_t hv) const { return _find_key(k,hv)!=(size_t)-1; } bool contains(int k) const { return contains(k,HV); } size_t count(int k) const { return contains(k); }
  value_type* find_ptr(int k,size_t hv){ size_t o=_find_key(k,hv); return o==(size_t)-1? nullptr: &slot[id].value; }
  size_t prepare_insert(size_t hv){ wr(id,"insertion under the exclusive lock"); vf_check(hv==HV,"the hash passed on is the hash of the key"); vf_check(id%NT==(int)SH,SHARD); vf_check(!G[id].has,"no second entry for a key that is present"); vf_check(!G[id].prep,"one slot is prepared at a time"); vf_check(n_find>0,"an entry is added only in the critical section in which the key was found absent"); G[id].prep=true; G[id].built=false; G[id].off=vf_u64(); ++G[id].n; vf_assume(G[id].off<G[id].n); return G[id].off; }
  std::pair<size_t,bool> find_or_prepare_insert(int k,size_t hv){ size_t o=_find_key(k,hv); if(o!=(size_t)-1) return {o,false}; return {prepare_insert(hv),true}; }
  template<class... Args> void emplace_at(size_t o,Args&&... a){ vf_check(o==G[id].off,"the entry is built in the prepared slot"); constructor{this}(std::forward<Args>(a)...); }
  template<class F> void lazy_emplace_at(size_t o,F&& f){ vf_check(o==G[id].off,"the entry is built in the prepared slot"); std::forward<F>(f)(constructor{this}); vf_check(G[id].built,"constructed"); }
  void set_ctrl(size_t o,unsigned char t){ wr(id,"insertion under the exclusive lock"); vf_check(o==G[id].off&&G[id].prep&&G[id].built,"only a constructed, prepared slot becomes visible"); vf_check(t==(unsigned char)H2(HV),"the tag stored is the tag of the key's hash"); G[id].has=true; G[id].prep=false; ++n_ins; }
  iterator iterator_at(size_t o){ vf_check(o==G[id].off,"iterator_at() is given the offset of the key"); return at(o); } const_iterator iterator_at(size_t o) const { return at(o); }
  void _erase(iterator it){ wr(id,"erasure under the exclusive lock"); vf_check(it.s==this&&it.p==G[id].off&&G[id].has,"only the entry found is erased, and it is still there"); G[id].has=false; --G[id].n; ++n_del; } void _erase(const_iterator it){ _erase(it.i); } iterator erase(iterator it){ _erase(it); return at(it.p); }
  size_t erase(int k){ wr(id,"erasure under the exclusive lock"); vf_check(k==K0&&id%NT==(int)SH,SHARD); bool b=G[id].has; if(b){ G[id].has=false; --G[id].n; ++n_del; } return b; }
  void clear(){ wr(id,"clear under the exclusive lock"); G[id].has=false; G[id].n=0; ++n_clear; }
  void rehash(size_t n){ wr(id,"rehash under the exclusive lock"); ++n_clear; if(n_clear==1) acc_rehash=n; vf_check(n==acc_rehash,"every shard is given the same size"); G[id].off=vf_u64(); if(G[id].has) vf_assume(G[id].off<G[id].n); }
  static size_t acc_rehash;
  template<class F> void emplace_single_with_hash(int k,size_t hv,F&& f){ wr(id,"insertion under the exclusive lock"); key(k,hv,SHARD); ++n_find; size_t o=prepare_insert(hv); lazy_emplace_at(o,std::forward<F>(f)); set_ctrl(o,H2(hv)); }
  template<bool D> struct InsertSlotWithHash { template<class K,class... Args> std::pair<iterator,bool> operator()(const K& k,Args&&...) && { int i=s.id; s.key(k,hashval,SHARD); auto r=s.find_or_prepare_insert(k,hashval); if(r.second){ wr(i,"insertion under the exclusive lock"); ::slot[i].mutable_value=slot.mutable_value; sync(i); G[i].built=true; s.set_ctrl(r.first,H2(hashval)); } return {s.at(r.first),r.second}; } Shard& s; Slot&& slot; size_t hashval; };
  insert_return_type insert(node_type&& nh,size_t hv){ wr(id,"insertion under the exclusive lock"); key(nh.key(),hv,SHARD); ++n_find; if(G[id].has) return { at(G[id].off), false, std::move(nh) }; int v=nh.mapped(); size_t o=prepare_insert(hv); load(id); slot[id].mutable_value.second=v; sync(id); G[id].built=true; set_ctrl(o,H2(hv)); nh=node_type(); return { at(o), true, node_type() }; }
  node_type extract(const_iterator it){ vf_check(it.i.s==this&&it.i.p==G[id].off&&G[id].has,"the entry found is extracted"); load(id); auto n=CommonAccess::Transfer<node_type>(al,&slot[id]); G[id].has=false; --G[id].n; ++n_del; return n; }
  void merge(Shard& o){ wr(id,"merge under both exclusive locks"); wr(o.id,"merge under both exclusive locks"); vf_check(id%NT==o.id%NT&&id!=o.id,"corresponding shards are merged"); ++n_clear; }
  void swap(Shard& o){ wr(id,"swap under both exclusive locks"); wr(o.id,"swap under both exclusive locks"); vf_check(id%NT==o.id%NT&&id!=o.id,"corresponding shards are swapped"); ++n_clear; } friend void swap(Shard& a,Shard& b){ a.swap(b); }
  friend bool operator==(const Shard& a,const Shard& b){ rd(a.id,"comparison under both locks"); rd(b.id,"comparison under both locks"); vf_check(a.id%NT==b.id%NT,"corresponding shards are compared"); ++n_clear; return G[a.id].has==G[b.id].has; }
  template<class Ar> bool phmap_dump(Ar& ar) const { rd(id,"a shard is dumped under its lock"); return ar.shard(id); }
  template<class Ar> bool phmap_load(Ar& ar) { wr(id,"a shard is loaded under the exclusive lock"); return ar.shard(id); }
  void prefetch_hash(size_t hv) const { rd(id,"prefetch under the shard lock"); }
  H& hash_ref(){ return h; } const H& hash_ref() const { return h; } E& eq_ref(){ return eq; } const E& eq_ref() const { return eq; } A& alloc_ref(){ return al; } const A& alloc_ref() const { return al; }
};
template<class Pol,class H,class E,class A> size_t Shard<Pol,H,E,A>::acc_rehash=0;
template<class M> using PM=parallel_hash_map<VF_N,Shard,M,gtl::priv::empty,P,Hs,Eq,Al>;
template<class M> static void start(PM<M>& c){ // arbitrary contents
  n_ins=n_del=n_asg=n_clear=n_acq=n_find=0; K0=(int)vf_u32(); size_t salt=vf_u64(); for(int i=0;i<NT;++i) c.sets_[i].set_.h.salt=salt; HV=c.hash(K0); SH=PM<M>::subidx(HV); vf_check(SH<(size_t)NT,"the shard index is in range"); conc=vf_bool();
  for(int i=0;i<NID;++i){ G[i].has=vf_bool(); G[i].val=(int)vf_u32(); G[i].n=vf_u64(); G[i].off=vf_u64(); vf_assume(G[i].n<(1ull<<40)); if(G[i].has) vf_assume(G[i].off<G[i].n); if(i%NT!=(int)SH) vf_assume(!G[i].has); load(i); }
  inop=true; deref_lock=true; unlocked_ok=false; }
static bool old_has; static int old_val; static size_t old_n; static int me(){ return (int)SH; }
static void mark(){ old_has=G[SH].has; old_val=G[SH].val; old_n=G[SH].n; }
// after every operation: all locks released, no write after the release, other shards untouched
template<bool FRAME=true> static void finish(){ inop=false; for(int i=0;i<NID;++i){ vf_check(!G[i].x&&!G[i].s,"every lock taken is released"); vf_check(!G[i].prep,"no half-inserted entry is left"); if(FRAME) vf_check(!G[i].touched||i==(int)SH,"other shards are untouched"); } }
static void published(){ if(G[me()].has) sync(me()); vf_check(G[me()].val==G[me()].acq_val||n_acq==0,"no write to an entry after its lock was released"); }
// entries take the lock type as a parameter
#define ENTRY(nm) template<class M> static void T_##nm(); HARNESS H_par_##nm##_mutex(){ T_##nm<GM>(); } HARNESS H_par_##nm##_shared(){ T_##nm<GS>(); } template<class M> static void T_##nm()
// insertion: present -> not inserted and unchanged; absent -> inserted with exactly this value
template<class M,class It> static void ins_post(bool reported,const It& it,int v,bool assigns,bool check_it){ Ghost& g=G[me()]; published(); finish();
  vf_check(g.has,"the key is present after an insertion"); vf_check(n_ins==(int)reported,"insertion is reported exactly when an entry was added"); vf_check(n_del==0&&n_clear==0,"nothing else changes"); vf_check(reported==!g.acq_has,"inserts exactly when the key was absent"); if(!conc) vf_check(reported==!old_has,"inserts exactly when the key was absent");
  if(reported) vf_check(g.val==v,"the entry inserted has the value given"); else if(assigns) vf_check(g.val==v,"the entry is assigned"); else if(!conc) vf_check(g.val==old_val,"an existing entry is unchanged");
  if(check_it){ inop=false; vf_check(it.inner_!=nullptr&&it.it_.s->id==me()&&it.it_.p==g.off,"the position returned is that of the key"); } if(reported) vf_cover("inserted"); else vf_cover("already present"); }
#define INS(nm,expr,asg) ENTRY(nm){ PM<M> c; start(c); mark(); int v=(int)vf_u32(); auto r=expr; ins_post<M>(r.second,r.first,v,asg,true); }
#define INSI(nm,expr,asg) ENTRY(nm){ PM<M> c; start(c); mark(); int v=(int)vf_u32(); auto r=expr; ins_post<M>(n_ins>0,r,v,asg,true); }
#define INSV(nm,expr,asg) ENTRY(nm){ PM<M> c; start(c); mark(); int v=(int)vf_u32(); deref_lock=false; expr; ins_post<M>(n_ins>0,typename PM<M>::iterator(),v,asg,false); }
using VT=std::pair<const int,int>; using IT=std::pair<int,int>;
INS(insert_lv,([&]{ VT x(K0,v); return c.insert(x); }()),false)
INS(insert_rv,c.insert(IT(K0,v)),false)
INS(emplace,c.emplace(K0,v),false)
INS(emplace_pw,c.emplace(std::piecewise_construct,std::forward_as_tuple(K0),std::forward_as_tuple(v)),false)
INS(emplace_hash,c.emplace_with_hash(HV,K0,v),false)
INS(try_emplace,c.try_emplace(K0,v),false)
INS(try_emplace_hash,c.try_emplace_with_hash(HV,K0,v),false)
INS(ioa,c.insert_or_assign(K0,v),true)
INS(ioa_rv,([&]{ int k=K0; return c.insert_or_assign(std::move(k),std::move(v)); }()),true)
INSI(insert_hint,c.insert(typename PM<M>::const_iterator(),IT(K0,v)),false)
INSI(emplace_hint,c.emplace_hint(typename PM<M>::const_iterator(),K0,v),false)
INSI(try_hint,c.try_emplace(typename PM<M>::const_iterator(),K0,v),false)
INSI(ioa_hint,c.insert_or_assign(typename PM<M>::const_iterator(),K0,v),true)
INSI(lazy,c.lazy_emplace(K0,[&](const auto& ct){ vf_check(xl(me()),"the callback runs under the exclusive lock"); ct(K0,v); }),false)
INSI(lazy_hash,c.lazy_emplace_with_hash(K0,HV,[&](const auto& ct){ vf_check(xl(me()),"the callback runs under the exclusive lock"); ct(K0,v); }),false)
INSV(index,(v=0,c[K0]),false)
INSV(index_rv,([&]{ v=0; int k=K0; c[std::move(k)]; }()),false)
// an element type the key cannot be deduced from
struct Src { int k,v; operator IT() const { return IT(k,v); } operator VT() const { return VT(k,v); } };
INS(emplace_opaque,c.emplace(Src{K0,v}),false)
INS(emplace_opaque_hash,c.emplace_with_hash(HV,Src{K0,v}),false)
ENTRY(try_p){ PM<M> c; start(c); mark(); int v=(int)vf_u32(); auto r=c.try_emplace_p(K0,v); ins_post<M>(r.second,typename PM<M>::iterator(),v,false,false); vf_check(r.first==&slot[me()].value,"the pointer returned is that of the key"); }
ENTRY(single){ PM<M> c; start(c); conc=false; G[SH].has=false; mark(); int v=(int)vf_u32(); auto f=[&](const auto& ct){ vf_check(xl(me()),"the callback runs under the exclusive lock"); ct(K0,v); }; if(vf_bool()) c.emplace_single(K0,f); else c.emplace_single_with_hash(K0,HV,f); published(); finish(); vf_check(G[me()].has&&n_ins==1&&G[me()].val==v,"emplace_single inserts"); vf_cover("inserted"); }
ENTRY(try_l){ PM<M> c; start(c); mark(); int v=(int)vf_u32(), calls=0; bool r=c.try_emplace_l(K0,[&](VT& x){ ++calls; vf_check(xl(me()),"the callback runs under the exclusive lock"); vf_check(&x==&slot[me()].value,"the callback is given the entry of the key"); x.second=77; sync(me()); },v); if(!r){ vf_check(calls==1,"callback called once for an existing entry"); published(); finish(); vf_check(n_ins==0&&G[me()].acq_has,"reported"); vf_cover("existing"); } else { vf_check(calls==0,"callback not called for a new entry"); ins_post<M>(r,typename PM<M>::iterator(),v,false,false); } }
ENTRY(lazy_l){ PM<M> c; start(c); mark(); int v=(int)vf_u32(), ne=0, nc=0; bool r=c.lazy_emplace_l(K0,[&](VT& x){ ++ne; vf_check(xl(me()),"the callback runs under the exclusive lock"); vf_check(&x==&slot[me()].value,"the callback is given the entry of the key"); x.second=77; sync(me()); },[&](const auto& ct){ ++nc; vf_check(xl(me()),"the callback runs under the exclusive lock"); ct(K0,v); }); vf_check(ne==(r?0:1)&&nc==(r?1:0),"exactly one of the callbacks runs, once"); if(!r){ published(); finish(); vf_check(n_ins==0&&G[me()].acq_has,"reported"); vf_cover("existing"); } else ins_post<M>(r,typename PM<M>::iterator(),v,false,false); }
// node handles
template<class M> static typename PM<M>::node_type mknode(Slot& s,int v){ Al a; s.mutable_value.first=K0; s.mutable_value.second=v; return CommonAccess::Transfer<typename PM<M>::node_type>(a,&s); }
ENTRY(node){ PM<M> c; start(c); mark(); int v=(int)vf_u32(); SlotU raw; auto nh=mknode<M>(raw.s,v); bool hint=vf_bool(); if(hint){ auto it=c.insert(typename PM<M>::const_iterator(),std::move(nh)); ins_post<M>(n_ins>0,it,v,false,true); vf_check(nh.empty()==(n_ins>0),"a refused node is handed back"); } else { auto r=c.insert(std::move(nh)); ins_post<M>(r.inserted,r.position,v,false,true); vf_check(r.node.empty()==r.inserted,"a refused node is handed back"); } }
ENTRY(node_empty){ PM<M> c; start(c); mark(); typename PM<M>::node_type nh; auto r=c.insert(std::move(nh)); finish(); vf_check(!r.inserted&&n_ins==0&&r.position==c.end(),"an empty node inserts nothing"); vf_cover("reached"); }
// removal
ENTRY(erase){ PM<M> c; start(c); mark(); size_t r=c.erase(K0); finish(); vf_check(r==(size_t)n_del,"an erasure is reported exactly when it happened"); vf_check(n_del<=1&&n_ins==0&&n_clear==0,"at most one entry goes"); if(!conc){ vf_check(r==(size_t)old_has,"erase() removes a present key"); vf_check(!G[me()].has&&G[me()].n==old_n-r,"exactly one entry goes"); } if(r==0) vf_check(!found_last,"erase() reports 0 only if the key was absent in a critical section"); if(r) vf_cover("erased"); else vf_cover("absent"); }
ENTRY(erase_if){ PM<M> c; start(c); mark(); bool ans=vf_bool(); int calls=0; bool r=c.erase_if(K0,[&](VT& x){ ++calls; vf_check(xl(me()),"the predicate runs under the exclusive lock"); vf_check(&x==&slot[me()].value&&G[me()].has,"the predicate is given the entry of the key, which is present"); return ans; }); finish(); vf_check(r==(n_del==1)&&n_del<=1&&n_ins==0,"an erasure is reported exactly when it happened"); vf_check(calls<=1&&r==(calls==1&&ans),"erases exactly when the predicate accepts"); if(!conc){ vf_check((calls==1)==old_has,"the predicate runs exactly for a present key"); vf_check(G[me()].has==(old_has&&!ans),"exactly the accepted entry goes"); } if(!calls) vf_check(!found_last,"skips the predicate only if the key was absent"); if(r) vf_cover("erased"); if(calls&&!ans) vf_cover("kept"); if(!calls) vf_cover("absent"); }
// access
ENTRY(modify_if){ PM<M> c; start(c); mark(); int calls=0, seen=0; bool r=c.modify_if(K0,[&](VT& x){ ++calls; seen=x.second; vf_check(xl(me()),"the callback runs under the exclusive lock"); vf_check(&x==&slot[me()].value,"the callback is given the entry of the key"); x.second=99; sync(me()); }); published(); finish(); vf_check(r==(calls==1)&&calls<=1,"reports whether the key was present"); vf_check(r==G[me()].acq_has||r,"reports whether the key was present"); vf_check(n_ins==0&&n_del==0,"no entry added or removed"); if(!conc) vf_check(r==old_has&&(!r||seen==old_val),"reports whether the key was present"); if(r) vf_cover("present"); else vf_cover("absent"); }
ENTRY(if_contains){ PM<M> c; start(c); mark(); int calls=0, seen=0; const PM<M>& cc=c; bool r=cc.if_contains(K0,[&](const VT& x){ ++calls; seen=x.second; vf_check(rl(me()),"the callback runs under the lock"); vf_check(&x==&slot[me()].value,"the callback is given the entry of the key"); }); finish(); vf_check(r==(calls==1)&&calls<=1&&r==found_last,"reports whether the key was present"); if(!conc) vf_check(r==old_has&&(!r||seen==old_val),"reports whether the key was present"); vf_check(n_ins==0&&n_del==0&&!G[me()].touched,"nothing changes"); if(r) vf_cover("present"); else vf_cover("absent"); }
ENTRY(if_contains_unsafe){ PM<M> c; start(c); conc=false; unlocked_ok=true; mark(); int calls=0; const PM<M>& cc=c; bool r=cc.if_contains_unsafe(K0,[&](const VT& x){ ++calls; vf_check(&x==&slot[me()].value,"the callback is given the entry of the key"); }); finish(); vf_check(r==(calls==1)&&r==old_has,"reports whether the key was present"); vf_check(n_acq==0&&!G[me()].touched,"takes no lock and changes nothing"); if(r) vf_cover("present"); else vf_cover("absent"); }
ENTRY(find){ PM<M> c; start(c); mark(); const PM<M>& cc=c; int f=(int)vf_below(4); if(f==0||f==1){ auto it= f? c.find(K0): c.find(K0,HV); finish(); vf_check((it!=c.end())==found_last,"find() finds exactly a present key"); if(it!=c.end()) vf_check(it.it_.s->id==me()&&it.it_.p==G[me()].off,"the position found is that of the key"); if(!conc) vf_check(found_last==old_has,"found exactly when present"); } else { auto it= f==2? cc.find(K0): cc.find(K0,HV); finish(); vf_check((it!=cc.end())==found_last,"find() finds exactly a present key"); if(!conc) vf_check(found_last==old_has,"found exactly when present"); } vf_check(!G[me()].touched,"nothing changes"); vf_cover("reached"); }
ENTRY(contains){ PM<M> c; start(c); mark(); const PM<M>& cc=c; int f=(int)vf_below(3); bool r= f==0? cc.contains(K0): f==1? cc.contains(K0,HV): cc.count(K0)==1; finish(); vf_check(r==found_last&&!G[me()].touched,"contains() is true exactly for a present key"); if(!conc) vf_check(r==old_has,"contains() is true exactly for a present key"); if(r) vf_cover("present"); else vf_cover("absent"); }
ENTRY(at){ PM<M> c; start(c); conc=false; G[SH].has=true; G[SH].off=0; G[SH].n=1; mark(); deref_lock=false; const PM<M>& cc=c; int& r=c.at(K0); const int& q=cc.at(K0); finish(); vf_check(&r==&slot[me()].value.second&&&q==&r&&r==old_val,"at() returns the value of the key"); vf_cover("reached"); }
ENTRY(range){ PM<M> c; start(c); conc=false; unlocked_ok=true; mark(); auto p=c.equal_range(K0); finish(); if(old_has){ vf_check(p.first.it_.p==G[me()].off&&p.first.it_.s->id==me(),"equal_range starts at the entry"); auto q=p.first; ++q; vf_check(q==p.second,"equal_range holds exactly one entry"); vf_cover("present"); } else { vf_check(p.first==p.second,"equal_range of an absent key is empty"); vf_cover("absent"); } }
ENTRY(extract){ PM<M> c; start(c); conc=false; mark(); unlocked_ok=true; auto nh=c.extract(K0); finish(); vf_check(nh.empty()==!old_has&&n_del==(int)old_has,"extract() returns exactly a present entry and removes it"); if(old_has){ vf_check(nh.key()==K0&&nh.mapped()==old_val,"the node holds the entry"); vf_cover("present"); } else vf_cover("absent"); }
// whole container
ENTRY(clear){ PM<M> c; start(c); bool all=vf_bool(); size_t k=vf_below(NT); size_t no=G[(k+1)%NT].n; bool ho=G[(k+1)%NT].has; if(all) c.clear(); else c.clear(k); finish<false>(); vf_check(n_clear==(all?NT:1),"each shard is cleared once, under its lock"); for(int i=0;i<NT;++i) if(all||i==(int)k) vf_check(G[i].n==0&&!G[i].has,"the shard is empty"); if(!all&&!conc) vf_check(G[(k+1)%NT].n==no&&G[(k+1)%NT].has==ho&&!G[(k+1)%NT].touched,"clear(i) leaves other shards alone"); if(all) vf_cover("all"); else vf_cover("one"); }
ENTRY(submap){ PM<M> c; start(c); size_t k=vf_below(NT); int calls=0; bool m=vf_bool(); const PM<M>& cc=c; if(m) c.with_submap_m(k,[&](auto& s){ ++calls; vf_check(s.id==(int)k,"the shard asked for is passed"); vf_check(xl((int)k),"the callback runs under the exclusive lock"); }); else cc.with_submap(k,[&](const auto& s){ ++calls; vf_check(s.id==(int)k,"the shard asked for is passed"); vf_check(rl((int)k),"the callback runs under the lock"); }); finish(); vf_check(calls==1,"the callback runs once"); if(m) vf_cover("m"); else vf_cover("const"); }
ENTRY(for_each){ PM<M> c; start(c); conc=false; bool m=vf_bool(); size_t want=0; for(int i=0;i<NT;++i){ vf_assume(G[i].n<=2); want+=G[i].n; } size_t seen=0, hit=0; const PM<M>& cc=c; if(m) c.for_each_m([&](VT& x){ ++seen; bool any=false; for(int i=0;i<NT;++i) any|=xl(i); vf_check(any,"the callback runs under the exclusive lock"); if(&x==&slot[me()].value){ ++hit; vf_check(xl(me()),"the callback runs under the exclusive lock"); } }); else cc.for_each([&](const VT& x){ ++seen; bool any=false; for(int i=0;i<NT;++i) any|=rl(i); vf_check(any,"the callback runs under the lock"); if(&x==&slot[me()].value){ ++hit; vf_check(rl(me()),"the callback runs under the lock"); } }); finish(); vf_check(seen==want,"every entry of every shard is visited once, under its lock"); vf_check(hit==(G[me()].has?1:0),"the entry of a key is visited exactly once"); if(m) vf_cover("m"); else vf_cover("const"); }
ENTRY(merge){ PM<M> c, d; start(c); conc=vf_bool(); if(vf_bool()) c.merge(d); else c.merge(std::move(d)); finish<false>(); vf_check(n_clear==NT,"each pair of shards is merged once"); vf_cover("reached"); }
ENTRY(swap){ PM<M> c, d; start(c); c.swap(d); finish<false>(); vf_check(n_clear==NT,"each pair of shards is swapped once, under both locks"); vf_cover("reached"); }
ENTRY(swap_self){ PM<M> c; start(c); c.swap(c); finish(); vf_cover("reached"); }
ENTRY(eq){ PM<M> c, d; start(c); conc=false; bool all=true; for(int i=0;i<NT;++i) if(G[i].has!=G[NT+i].has) all=false; bool ne=vf_bool(); bool r= ne? !(c!=d): c==d; finish(); vf_check(r==all,"equal exactly when all corresponding shards are equal"); if(r) vf_check(n_clear==NT,"all shards are compared"); if(r) vf_cover("equal"); else vf_cover("different"); }
ENTRY(eq_self){ PM<M> c; start(c); bool r=c==c; finish(); if(!conc) vf_check(r,"a container equals itself"); vf_cover("reached"); }
ENTRY(rehash){ PM<M> c; start(c); size_t n=vf_u64(); vf_assume(n<(1ull<<48)); bool res=vf_bool(); if(res) c.reserve(n); else c.rehash(n); finish<false>(); vf_check(n_clear==NT,"every shard is rehashed once, under its lock"); if(res){ size_t per=Shard<P,Hs,Eq,Al>::acc_rehash; vf_check(per>=n/NT,"reserve(n) asks for at least n/shards slots per shard"); } vf_cover("reached"); }
ENTRY(misc){ PM<M> c; start(c); conc=false; const PM<M>& cc=c; size_t sz=0,cap=0; for(int i=0;i<NT;++i){ sz+=G[i].n; cap+=G[i].n*2+1; } unlocked_ok=true; vf_check(cc.size()==sz&&cc.empty()==(sz==0),"size is the sum over all shards"); vf_check(cc.capacity()==cap,"capacity is the sum over all shards"); unlocked_ok=false; vf_check(cc.bucket_count()==cap,"bucket_count is the sum over all shards"); cc.prefetch(K0); finish(); vf_cover("reached"); }
// iteration: begin() and ++ from every position, for all shard sizes
template<class I> static void pos_is(I& c,const typename I::iterator& it,int sh,size_t p){ if(sh<0) vf_check(it==c.end(),"the end is reached after the last entry"); else vf_check(it!=c.end()&&it.inner_==&c.sets_[sh]&&it.it_.s->id==sh&&it.it_.p==p,"iteration continues with the next entry of this shard or the first of the next non-empty one"); }
static int nextsh(int s){ for(int i=s;i<NT;++i) if(G[i].n) return i; return -1; }
ENTRY(begin){ PM<M> c; start(c); conc=false; unlocked_ok=true; auto it=c.begin(); pos_is(c,it,nextsh(0),0); const PM<M>& cc=c; auto ci=cc.begin(); vf_check(ci.iter_==it&&cc.cbegin()==ci&&(ci==cc.end())==(nextsh(0)<0),"const begin"); vf_cover("reached"); }
ENTRY(next){ PM<M> c; start(c); conc=false; unlocked_ok=true; int s=(int)vf_below(NT); vf_assume(G[s].n>0); size_t p=vf_below(G[s].n); typename PM<M>::iterator it(&c.sets_[s],&c.sets_[0]+NT,typename PM<M>::EmbeddedIterator{&c.sets_[s].set_,p}); auto old=it; bool post=vf_bool(); if(post){ auto r=it++; vf_check(r==old,"post-increment returns the old position"); } else ++it; if(p+1<G[s].n) pos_is(c,it,s,p+1); else { int k=nextsh(s+1); pos_is(c,it,k,0); } vf_check(it!=old,"the position advances"); if(p+1<G[s].n) vf_cover("same shard"); else vf_cover("next shard"); }
ENTRY(erase_it){ PM<M> c; start(c); conc=false; unlocked_ok=true; vf_assume(G[SH].has); mark(); size_t p=G[SH].off; typename PM<M>::iterator it(&c.sets_[SH],&c.sets_[0]+NT,typename PM<M>::EmbeddedIterator{&c.sets_[SH].set_,p}); auto want=it; ++want; auto r= vf_bool()? c.erase(it): c.erase(typename PM<M>::const_iterator(it)); finish(); vf_check(n_del==1&&!G[SH].has,"erase(position) erases exactly that entry"); vf_check(r==want,"erase(position) returns the next position"); vf_cover("reached"); }
// the lock classes themselves: from any consistent state, every operation keeps owns_lock() in step with the mutex, and the destructor releases it exactly once
using LB=LockableBaseImpl<GS>;
HARNESS H_lock_write(){ GS a,b; n_acq=0; bool pre=vf_bool(); { LB::WriteLock* l; LB::WriteLock w0(a,gtl::defer_lock_t{}); if(pre) w0.lock(); vf_check(w0.owns_lock()==pre&&G[a.id].x==pre,"lock state"); int o=(int)vf_below(8); switch(o){ case 0: w0.lock(); vf_check(G[a.id].x,"locked"); break; case 1: w0.unlock(); vf_check(!G[a.id].x,"unlocked"); break; case 2: vf_check(w0.try_lock()==G[a.id].x,"try_lock"); break; case 3: { LB::WriteLock w1(std::move(w0)); vf_check(w1.owns_lock()==pre&&!w0.owns_lock()&&w1.mutex()==&a,"move transfers the lock"); break; } case 4: { LB::WriteLock w1(b); w1=std::move(w0); vf_check(!G[b.id].x&&w1.owns_lock()==pre&&G[a.id].x==pre&&!w0.owns_lock(),"move assignment releases the old lock and transfers the new one"); break; } case 5: { LB::WriteLock w1(b); w1.swap(w0); vf_check(w0.owns_lock()&&w1.owns_lock()==pre,"swap"); break; } case 6: { if(!pre){ a.lock(); LB::WriteLock w1(a,gtl::adopt_lock_t{}); vf_check(w1.owns_lock(),"adopt"); } break; } case 7: { LB::WriteLock w1(b,gtl::try_to_lock_t{}); vf_check(w1.owns_lock()==G[b.id].x&&w1.owns_lock(),"try_to_lock"); LB::WriteLock w2; vf_check(!w2.owns_lock(),"default"); w2=std::move(w1); vf_check(w2.owns_lock()&&!w2.switch_to_unique(),"assigned"); break; } } vf_check(w0.owns_lock()==(w0.mutex()&&G[w0.mutex()->id].x)||o==3||o==4||o==6,"owns_lock() is the state of the mutex"); if(pre) vf_cover("locked"); else vf_cover("unlocked"); } vf_check(!G[a.id].x&&!G[b.id].x&&!G[a.id].s&&!G[b.id].s,"released exactly once"); }
HARNESS H_lock_read(){ GS a,b; n_acq=0; bool pre=vf_bool(); { LB::ReadLock w0(a,gtl::defer_lock_t{}); if(pre) w0.lock(); vf_check(w0.owns_lock()==pre&&G[a.id].s==pre,"lock state"); int o=(int)vf_below(8); switch(o){ case 0: w0.lock(); vf_check(G[a.id].s,"locked"); break; case 1: w0.unlock(); vf_check(!G[a.id].s,"unlocked"); break; case 2: vf_check(w0.try_lock()==G[a.id].s,"try_lock"); break; case 3: { LB::ReadLock w1(std::move(w0)); vf_check(w1.owns_lock()==pre&&!w0.owns_lock()&&w1.mutex()==&a,"move transfers the lock"); break; } case 4: { LB::ReadLock w1(b); w1=std::move(w0); vf_check(!G[b.id].s&&w1.owns_lock()==pre&&G[a.id].s==pre&&!w0.owns_lock(),"move assignment"); break; } case 5: { LB::ReadLock w1(b); w1.swap(w0); vf_check(w0.owns_lock()&&w1.owns_lock()==pre,"swap"); break; } case 6: { if(!pre){ a.lock_shared(); LB::ReadLock w1(a,gtl::adopt_lock_t{}); vf_check(w1.owns_lock(),"adopt"); } break; } case 7: { LB::ReadLock w1(b,gtl::try_to_lock_t{}); vf_check(w1.owns_lock()==G[b.id].s&&w1.owns_lock(),"try_to_lock"); LB::ReadLock w2; vf_check(!w2.owns_lock(),"default"); w2=std::move(w1); vf_check(w2.owns_lock()&&!w2.switch_to_unique(),"assigned"); break; } } vf_check(!G[a.id].x&&!G[b.id].x,"never exclusive"); if(pre) vf_cover("locked"); else vf_cover("unlocked"); } vf_check(!G[a.id].x&&!G[b.id].x&&!G[a.id].s&&!G[b.id].s,"released exactly once"); }
HARNESS H_lock_rw(){ GS a,b; n_acq=0; int st=(int)vf_below(3); { LB::ReadWriteLock w0(a,gtl::defer_lock_t{}); if(st==1) w0.lock_shared(); if(st==2) w0.lock(); vf_check(w0.owns_lock()==(st==2)&&w0.owns_shared_lock()==(st==1)&&G[a.id].x==(st==2)&&G[a.id].s==(st==1),"lock state"); int o=(int)vf_below(9); switch(o){ case 0: if(st!=1){ w0.lock(); vf_check(G[a.id].x,"locked"); } break; case 1: w0.unlock(); vf_check(!G[a.id].x&&G[a.id].s==(st==1),"unlocked"); break; case 2: if(st!=2){ w0.lock_shared(); vf_check(G[a.id].s,"shared"); } break; case 3: w0.unlock_shared(); vf_check(!G[a.id].s&&G[a.id].x==(st==2),"unlocked"); break; case 4: if(st==1){ vf_check(w0.switch_to_unique(),"switch_to_unique() reports that the lock was released in between"); vf_check(G[a.id].x&&!G[a.id].s&&w0.owns_lock()&&!w0.owns_shared_lock(),"exclusive after switch_to_unique()"); } break; case 5: { LB::ReadWriteLock w1(std::move(w0)); vf_check(w1.owns_lock()==(st==2)&&w1.owns_shared_lock()==(st==1)&&!w0.owns_lock()&&!w0.owns_shared_lock(),"move transfers the lock"); break; } case 6: { LB::ReadWriteLock w1(b); vf_check(G[b.id].s&&w1.owns_shared_lock(),"construction takes a shared lock"); w1=std::move(w0); vf_check(!G[b.id].s&&!G[b.id].x&&w1.owns_lock()==(st==2)&&w1.owns_shared_lock()==(st==1),"move assignment"); break; } case 7: { LB::ReadWriteLock w1(b); w1.swap(w0); vf_check(w0.owns_shared_lock()&&w1.owns_lock()==(st==2)&&w1.owns_shared_lock()==(st==1)&&w0.mutex()==&b,"swap"); break; } case 8: { LB::ReadWriteLock w1; vf_check(!w1.owns_lock()&&!w1.owns_shared_lock(),"default"); break; } } if(st==1) vf_cover("shared"); if(st==2) vf_cover("exclusive"); } vf_check(!G[a.id].x&&!G[b.id].x&&!G[a.id].s&&!G[b.id].s,"released exactly once"); }
HARNESS H_lock_pair(){ GS a,b; n_acq=0; if(vf_bool()){ LB::WriteLocks l(a,b); vf_check(G[a.id].x&&G[b.id].x,"both locked"); vf_cover("write"); } else { LB::ReadLocks l(a,b); vf_check(G[a.id].s&&G[b.id].s,"both locked"); vf_cover("read"); } vf_check(!G[a.id].x&&!G[b.id].x&&!G[a.id].s&&!G[b.id].s,"released exactly once"); { a.lock(); b.lock(); LB::WriteLocks l(gtl::adopt_lock_t{},a,b); } vf_check(!G[a.id].x&&!G[b.id].x,"released exactly once"); { a.lock_shared(); b.lock_shared(); LB::ReadLocks l(gtl::adopt_lock_t{},a,b); } vf_check(!G[a.id].s&&!G[b.id].s,"released exactly once"); }
// dump and load: the shard count, then every shard once, in order; any failure is reported
struct PAr { int next=-1; bool fail=false; size_t word=0; bool step(){ vf_check(!fail,"nothing more is read or written after a failure"); bool ok=vf_bool(); fail=!ok; return ok; }
  bool saveBinary(const void* p,size_t n){ vf_check(next==-1&&n==sizeof(size_t),"the shard count comes first"); next=0; word=*(const size_t*)p; return step(); }
  bool loadBinary(void* p,size_t n){ vf_check(next==-1&&n==sizeof(size_t),"the shard count comes first"); next=0; if(!step()) return false; *(size_t*)p=word; return true; }
  bool shard(int id){ vf_check(id==next,"every shard once, in order"); ++next; return step(); } };
ENTRY(dump){ PM<M> c; start(c); PAr ar; const PM<M>& cc=c; bool r=cc.phmap_dump(ar); finish(); vf_check(r==!ar.fail,"dump reports success exactly when every write succeeded"); if(r) vf_check(ar.next==NT&&ar.word==(size_t)NT,"the shard count and every shard are written"); if(r) vf_cover("ok"); else vf_cover("failed"); }
ENTRY(load){ PM<M> c; start(c); PAr ar; ar.word=vf_u64(); bool r=c.phmap_load(ar); finish<false>(); if(ar.fail) vf_check(!r,"a failed read is reported"); else if(ar.word==(size_t)NT) vf_check(r&&ar.next==NT,"every shard is loaded"); else vf_check(!r&&ar.next==0,"a dump with another number of shards is refused"); if(r) vf_cover("ok"); else vf_cover("failed"); }

// copying and moving: every shard receives the contents of the corresponding one
template<class M> static void took(PM<M>& c,int base){ for(int i=0;i<NT;++i) vf_check(c.sets_[i].set_.contents()==base+i,"every shard receives the contents of the corresponding shard"); }
template<class M> static void kept(PM<M>& c,int base){ for(int i=0;i<NT;++i) vf_check(c.sets_[i].set_.contents()==base+i,"the source of a copy is unchanged"); }
ENTRY(copyasg){ PM<M> c, d; start(c); conc=false; unlocked_ok=true; const PM<M>& cd=d; PM<M>& r=(c=cd); took<M>(c,NT); kept<M>(d,NT); vf_check(&r==&c,"assignment returns the container"); vf_cover("reached"); }
ENTRY(moveasg){ PM<M> c, d; start(c); conc=false; unlocked_ok=true; PM<M>& r=(c=std::move(d)); took<M>(c,NT); vf_check(&r==&c,"assignment returns the container"); vf_cover("reached"); }
ENTRY(copyctor){ PM<M> c; start(c); conc=false; unlocked_ok=true; const PM<M>& cc=c; if(vf_bool()){ PM<M> e(cc); took<M>(e,0); vf_check(e.hash(K0)==HV,"the copy hashes like the original"); } else { PM<M> e(cc,Al()); took<M>(e,0); vf_check(e.hash(K0)==HV,"the copy hashes like the original"); } kept<M>(c,0); vf_cover("reached"); }
ENTRY(movector){ PM<M> c; start(c); conc=false; unlocked_ok=true; if(vf_bool()){ PM<M> e(std::move(c)); took<M>(e,0); vf_check(e.hash(K0)==HV,"the new container hashes like the original"); } else { PM<M> e(std::move(c),Al()); took<M>(e,0); } vf_cover("reached"); }
