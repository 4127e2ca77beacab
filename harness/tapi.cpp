// C01 C02 C05: the public operations of the hash containers, each against the contracts of the table primitives
// (_find_key, find_impl, prepare_insert, set_ctrl, erase_meta_only, iterator skipping: table.cpp).  The table is an arbitrary one; what is
// followed is one arbitrary key K0: whether it has an entry, in which slot, and the life of the objects of that entry.
// prepare_insert may have rehashed: the table moves to other memory.
#include "verif.h"
#include <cstdlib>
#include <new>
#include <gtl/phmap.hpp>
using namespace gtl; using namespace gtl::priv;
#ifndef VF_KIND
#define VF_KIND 0
#endif
static long nk, nv; enum { LIVE=0x5a17, MOVED=0x5a18, DEAD=0xdead };
#define ALIVE(o) ((o).st==LIVE||(o).st==MOVED)
struct Tk { int v; int st; Tk():v(0),st(LIVE){ ++nk; } explicit Tk(int x):v(x),st(LIVE){ ++nk; } Tk(const Tk& o):v(o.v),st(LIVE){ vf_check(o.st==LIVE,"copied from a live key"); ++nk; } Tk(Tk&& o) noexcept:v(o.v),st(LIVE){ vf_check(o.st==LIVE,"moved from a live key"); o.st=MOVED; ++nk; } Tk& operator=(const Tk& o){ vf_check(ALIVE(*this)&&o.st==LIVE,"key assignment"); v=o.v; st=LIVE; return *this; } ~Tk(){ vf_check(ALIVE(*this),"a key is destroyed once"); st=DEAD; --nk; } };
struct Tv { int v; int st; Tv():v(0),st(LIVE){ ++nv; } explicit Tv(int x):v(x),st(LIVE){ ++nv; } Tv(const Tv& o):v(o.v),st(LIVE){ vf_check(o.st==LIVE,"copied from a live value"); ++nv; } Tv(Tv&& o) noexcept:v(o.v),st(LIVE){ vf_check(o.st==LIVE,"moved from a live value"); o.st=MOVED; ++nv; } Tv& operator=(const Tv& o){ vf_check(ALIVE(*this)&&o.st==LIVE,"value assignment"); v=o.v; st=LIVE; return *this; } Tv& operator=(Tv&& o) noexcept { vf_check(ALIVE(*this)&&o.st==LIVE,"value move assignment"); v=o.v; st=LIVE; o.st=MOVED; return *this; } ~Tv(){ vf_check(ALIVE(*this),"a value is destroyed once"); st=DEAD; --nv; } };
struct Hs { size_t operator()(const Tk& k) const { vf_check(k.st==LIVE,"a live key is hashed"); return (size_t)(unsigned)k.v*3+1; } };
struct Eq { bool operator()(const Tk& a,const Tk& b) const { return a.v==b.v; } };
#if VF_KIND==0
using M=flat_hash_map<Tk,Tv,Hs,Eq>; using Pol=FlatHashMapPolicy<Tk,Tv>; using VT=std::pair<const Tk,Tv>;
#elif VF_KIND==1
using M=node_hash_map<Tk,Tv,Hs,Eq>; using Pol=NodeHashMapPolicy<Tk,Tv>; using VT=std::pair<const Tk,Tv>;
#elif VF_KIND==2
using M=flat_hash_set<Tk,Hs,Eq>; using Pol=FlatHashSetPolicy<Tk>; using VT=Tk;
#else
using M=node_hash_set<Tk,Hs,Eq>; using Pol=NodeHashSetPolicy<Tk>; using VT=Tk;
#endif
constexpr bool MAP=VF_KIND<2;
#if VF_KIND<2
#define IFMAP(...) __VA_ARGS__
#define IFSET(...)
#else
#define IFMAP(...)
#define IFSET(...) __VA_ARGS__
#endif
using R=raw_hash_set<Pol,Hs,Eq,std::allocator<VT>>; using PT=hash_policy_traits<Pol>; using Slot=PT::slot_type;
// ---- ghost table
union Sl { Slot s; char c[sizeof(Slot)]; Sl(){} ~Sl(){} };
static Sl buf1, buf2; static ctrl_t cbuf1, cbuf2;      // the slot followed, before and after a possible rehash
static Sl* cur; static bool has, prep, moved_tab; static size_t s0, p0, cap1, cap2, n0, nx; static int kv0; static size_t hv0; static R* tab; static int n_find, n_prep, n_set, n_erase;
static void place(R* t,Sl* b,ctrl_t* c,size_t i,size_t cp){ cur=b; t->slots_=&b->s-i; t->ctrl_=c-i; t->capacity_=cp; }
static auto& el(){ return PT::element(&cur->s); }
static const Tk& ek(){ IFMAP(return el().first;) IFSET(return el();) }
static size_t mix(size_t);
#ifdef VF_CBMC
extern "C" {
size_t __CPROVER_uninterpreted_mix(size_t);
__attribute__((used)) size_t vf_contract_mix(const void*,size_t a){ return __CPROVER_uninterpreted_mix(a); }
static void lk(R* t,const Tk* k,size_t hv){ vf_check(t==tab,"lookup in this table"); vf_check(!prep,"no lookup while an insertion is half done"); vf_check(k->v==kv0&&k->st==LIVE,"the key asked for is looked up"); vf_check(hv==hv0,"the hash passed on is the hash of the key"); ++n_find; }
__attribute__((used)) size_t vf_contract_find_key(R* t,const Tk* k,size_t hv){ lk(t,k,hv); return has? s0:(size_t)-1; }
__attribute__((used)) bool vf_contract_find_impl(R* t,const Tk* k,size_t hv,size_t& o){ lk(t,k,hv); if(has) o=s0; return has; }
__attribute__((used)) size_t vf_contract_prepare(R* t,size_t hv){ vf_check(t==tab,"insertion in this table"); vf_check(!has,"a slot is prepared only for an absent key"); vf_check(!prep,"one slot is prepared"); vf_check(n_find>=1,"the key was looked up first"); vf_check(hv==hv0,"the slot is searched with the hash of the key"); ++n_prep; prep=true; if(vf_bool()){ moved_tab=true; place(t,&buf2,&cbuf2,p0,cap2); } else place(t,&buf1,&cbuf1,p0,cap1); ++t->size_; return p0; }
__attribute__((used)) void vf_contract_set_ctrl(R* t,size_t i,ctrl_t h){ vf_check(t==tab&&prep&&i==p0,"the prepared slot is marked occupied"); vf_check(h==(ctrl_t)H2(hv0),"with the tag of the key"); vf_check(ek().v==kv0&&ek().st==LIVE,"after the entry was constructed"); prep=false; has=true; s0=p0; ++n_set; }
__attribute__((used)) void vf_contract_erase_meta(R* t,R::const_iterator it){ vf_check(t==tab&&has,"only an occupied slot is released"); vf_check(it.inner_.ctrl_==t->ctrl_+s0,"the slot of the key is released"); has=false; --t->size_; ++n_erase; }
__attribute__((used)) void vf_contract_skip(R::iterator* it){ vf_check(has&&it->ctrl_==tab->ctrl_+s0+1&&it->slot_==tab->slots_+s0+1,"iteration goes on right after the slot"); it->ctrl_=tab->ctrl_+nx; it->slot_=tab->slots_+nx; }
}
static size_t mix(size_t a){ return __CPROVER_uninterpreted_mix(a); }
#else
static size_t mix(size_t a){ return a; }
#endif
static Tv* nov; static int ival; static bool had;
static void mk(M& m){ tab=&m; unsigned k1=vf_u8(),k2=vf_u8(); vf_assume(k1>=1&&k1<=40&&k2>k1&&k2<=41); cap1=((size_t)1<<k1)-1; cap2=((size_t)1<<k2)-1; s0=vf_u64(); p0=vf_u64(); vf_assume(s0<cap1&&p0<cap1); nx=vf_u64(); vf_assume(nx>s0&&nx<=cap1); has=had=vf_bool(); kv0=(int)vf_u32(); ival=(int)vf_u32(); hv0=mix((size_t)(unsigned)kv0*3+1); n0=vf_u64(); vf_assume(n0<cap1); if(has) vf_assume(n0>=1);
  m.size_=n0; place(&m,&buf1,&cbuf1,has? s0:p0,cap1); if(has){ std::allocator<VT> a; IFMAP(PT::construct(&a,&buf1.s,Tk(kv0),Tv(ival));) IFSET(PT::construct(&a,&buf1.s,Tk(kv0));) } }
static long bk,bv; static void base(){ bk=nk; bv=nv; }
static void drop(M& m){ m.capacity_=0; }
// after the operation: entry expected or not, with which value; objects alive changed by dk/dv
static void post(M& m,bool e,int val,long dk,long dv,const char*){ vf_check(!prep,"no half-done insertion is left"); vf_check(has==e,"the key has an entry exactly when it should"); vf_check(m.size_==n0+(e?1:0)-(had?1:0),"the size counts the entries"); vf_check(nk==bk+dk&&nv==bv+(MAP?dv:0),"no object is leaked or destroyed twice"); if(e){ vf_check(ek().v==kv0&&ek().st==LIVE,"the entry holds the key"); IFMAP(vf_check(el().second.v==val&&el().second.st==LIVE,"the entry holds the value");) } vf_cover("end"); }
template<class It> static void at(M& m,const It& it,const char* w){ vf_check(has&&it==m.iterator_at(s0),w); }
#define INIT M m; mk(m); Tk k(kv0); Tv v((int)vf_u32()); int vv=v.v; (void)vv; base();
#define OP(nm,...) HARNESS H_ta_##nm(){ { INIT __VA_ARGS__ drop(m); } }
// lookups
static void look(M& m){ post(m,had,ival,0,0,""); }
OP(find, auto it=m.find(k); if(had) at(m,it,"find returns the entry"); else vf_check(it==m.end(),"find returns end() for an absent key"); look(m);)
OP(cfind, const M& c=m; auto it=c.find(k); vf_check((it==c.end())==!had,"const find"); if(had) vf_check(it.inner_==m.iterator_at(s0),"find returns the entry"); look(m);)
OP(findh, auto it=m.find(k,m.hash(k)); if(had) at(m,it,"find returns the entry"); else vf_check(it==m.end(),"find returns end() for an absent key"); look(m);)
OP(findptr, auto p=m.find_ptr(k,m.hash(k)); vf_check((p!=nullptr)==had,"find_ptr"); if(p) vf_check((void*)p==(void*)&el(),"find_ptr returns the entry"); look(m);)
OP(contains, vf_check(m.contains(k)==had,"contains tells whether the key is present"); look(m);)
OP(containsh, vf_check(m.contains(k,m.hash(k))==had,"contains tells whether the key is present"); look(m);)
OP(count, vf_check(m.count(k)==(had?1u:0u),"count is 1 or 0"); look(m);)
OP(eqrange, auto r=m.equal_range(k); if(had){ at(m,r.first,"equal_range starts at the entry"); vf_check(r.second==m.iterator_at(nx),"equal_range holds one entry"); } else vf_check(r.first==r.second&&r.first==m.end(),"equal_range of an absent key is empty"); look(m);)
// insertions
#define INS_POST(r) at(m,(r).first,"the iterator returned is at the entry of the key"); vf_check((r).second==!had,"an insertion happens exactly when the key was absent");
OP(lazy, int calls=0; auto it=m.lazy_emplace(k,[&](const R::constructor& c){ ++calls; IFMAP(c(k,v);) IFSET(c(k);) }); at(m,it,"the iterator returned is at the entry of the key"); vf_check(calls==(had?0:1),"the constructor callback runs exactly for an absent key"); post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(lazyh, int calls=0; auto it=m.lazy_emplace_with_hash(k,m.hash(k),[&](const R::constructor& c){ ++calls; IFMAP(c(k,v);) IFSET(c(k);) }); at(m,it,"the iterator returned is at the entry of the key"); vf_check(calls==(had?0:1),"the constructor callback runs exactly for an absent key"); post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(single, m.emplace_single_with_hash(k,m.hash(k),[&](const R::constructor& c){ IFMAP(c(k,v);) IFSET(c(k);) }); post(m,!had,vv,had?-1:1,had?-1:1,"");)
#if VF_KIND<2
OP(at, if(had){ Tv& x=m.at(k); vf_check(&x==&el().second,"at returns the mapped value"); vf_cover("present"); } look(m);)
OP(catt, if(had){ const M& c=m; const Tv& x=c.at(k); vf_check(&x==&el().second,"at returns the mapped value"); vf_cover("present"); } look(m);)
OP(emplace, auto r=m.emplace(k,v); INS_POST(r) vf_check(k.st==LIVE&&v.st==LIVE,"lvalue arguments are left alone"); post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(emplacemv, auto r=m.emplace(std::move(k),std::move(v)); INS_POST(r) post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(emplacepw, auto r=m.emplace(std::piecewise_construct,std::forward_as_tuple(k),std::forward_as_tuple(vv)); INS_POST(r) post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(emplaceh, auto r=m.emplace_with_hash(m.hash(k),k,v); INS_POST(r) post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(emplacehint, auto it=m.emplace_hint(m.end(),k,v); at(m,it,"the iterator returned is at the entry of the key"); post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(insertl, VT e(k,v); base(); auto r=m.insert(e); INS_POST(r) vf_check(e.second.st==LIVE,"an lvalue argument is left alone"); post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(insertc, const VT e(k,v); base(); auto r=m.insert(e); INS_POST(r) post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(insertr, VT e(k,v); base(); auto r=m.insert(std::move(e)); INS_POST(r) post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(inserti, std::pair<Tk,Tv> e(k,v); base(); auto r=m.insert(std::move(e)); INS_POST(r) post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(inserthint, VT e(k,v); base(); auto it=m.insert(m.end(),e); at(m,it,"the iterator returned is at the entry of the key"); post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(try, auto r=m.try_emplace(k,vv); INS_POST(r) post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(trymv, auto r=m.try_emplace(std::move(k),std::move(v)); INS_POST(r) vf_check((k.st==LIVE&&v.st==LIVE)==had,"try_emplace leaves its arguments alone when the key is present"); post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(tryhint, auto it=m.try_emplace(m.end(),k,vv); at(m,it,"the iterator returned is at the entry of the key"); post(m,true,had? ival:vv,had?0:1,had?0:1,"");)
OP(asg, auto r=m.insert_or_assign(k,v); INS_POST(r) vf_check(k.st==LIVE&&v.st==LIVE,"lvalue arguments are left alone"); post(m,true,vv,had?0:1,had?0:1,"");)
OP(asgmv, auto r=m.insert_or_assign(std::move(k),std::move(v)); INS_POST(r) post(m,true,vv,had?0:1,had?0:1,"");)
OP(asghint, auto it=m.insert_or_assign(m.end(),k,v); at(m,it,"the iterator returned is at the entry of the key"); post(m,true,vv,had?0:1,had?0:1,"");)
OP(index, Tv& x=m[k]; vf_check(&x==&el().second,"operator[] returns the mapped value"); post(m,true,had? ival:0,had?0:1,had?0:1,"");)
OP(indexmv, Tv& x=m[std::move(k)]; vf_check(&x==&el().second,"operator[] returns the mapped value"); post(m,true,had? ival:0,had?0:1,had?0:1,"");)
#else
OP(emplace, auto r=m.emplace(k); INS_POST(r) vf_check(k.st==LIVE,"lvalue arguments are left alone"); post(m,true,0,had?0:1,0,"");)
OP(emplacemv, auto r=m.emplace(std::move(k)); INS_POST(r) post(m,true,0,had?0:1,0,"");)
OP(emplacepw, auto r=m.emplace(kv0); INS_POST(r) post(m,true,0,had?0:1,0,"");)
OP(emplaceh, auto r=m.emplace_with_hash(m.hash(k),k); INS_POST(r) post(m,true,0,had?0:1,0,"");)
OP(emplacehint, auto it=m.emplace_hint(m.end(),k); at(m,it,"the iterator returned is at the entry of the key"); post(m,true,0,had?0:1,0,"");)
OP(insertl, auto r=m.insert(k); INS_POST(r) vf_check(k.st==LIVE,"an lvalue argument is left alone"); post(m,true,0,had?0:1,0,"");)
OP(insertr, auto r=m.insert(std::move(k)); INS_POST(r) vf_check((k.st==LIVE)==had,"the key is moved from only when it is inserted"); post(m,true,0,had?0:1,0,"");)
OP(inserthint, auto it=m.insert(m.end(),k); at(m,it,"the iterator returned is at the entry of the key"); post(m,true,0,had?0:1,0,"");)
#endif
// removal and node handles
OP(erase, size_t r=m.erase(k); vf_check(r==(had?1u:0u),"erase(key) returns the number of entries removed"); post(m,false,0,had?-1:0,had?-1:0,"");)
OP(eraseit, vf_assume(had); auto it=m.erase(m.iterator_at(s0)); vf_check(it==m.iterator_at(nx),"erase(iterator) returns the next entry"); post(m,false,0,-1,-1,"");)
OP(erasecit, vf_assume(had); M::const_iterator c=m.iterator_at(s0); auto it=m.erase(c); vf_check(it==m.iterator_at(nx),"erase(iterator) returns the next entry"); post(m,false,0,-1,-1,"");)
OP(eraseraw, vf_assume(had); m._erase(m.iterator_at(s0)); post(m,false,0,-1,-1,"");)
OP(extract, { auto n=m.extract(k); vf_check(!n.empty()==had,"extract yields a node exactly for a present key"); if(had){ vf_check(nk==bk&&nv==bv,"the entry moves into the node"); IFMAP(vf_check(n.key().v==kv0&&n.mapped().v==ival,"the node holds the entry");) IFSET(vf_check(n.value().v==kv0,"the node holds the entry");) } } post(m,false,0,had?-1:0,had?-1:0,"");)
OP(extractit, vf_assume(had); { auto n=m.extract(M::const_iterator(m.iterator_at(s0))); vf_check(!n.empty(),"extract yields a node"); vf_check(nk==bk&&nv==bv,"the entry moves into the node"); } post(m,false,0,-1,-1,"");)
static Sl nbuf;
static M::node_type mknode(){ std::allocator<VT> a; IFMAP(PT::construct(&a,&nbuf.s,Tk(kv0),Tv(77));) IFSET(PT::construct(&a,&nbuf.s,Tk(kv0));) return CommonAccess::Make<M::node_type>(a,&nbuf.s); }
OP(insnode, { auto n=mknode(); base(); auto r=m.insert(std::move(n)); vf_check(r.inserted==!had,"a node is inserted exactly when its key was absent"); at(m,r.position,"the position is that of the entry"); vf_check(n.empty(),"the argument gives up its node"); vf_check(!r.node.empty()==had,"a rejected node is handed back"); vf_check(nk==bk&&nv==bv,"the entry moves, nothing is copied"); if(had){ IFMAP(vf_check(r.node.key().v==kv0&&r.node.mapped().v==77,"the node handed back is intact");) IFSET(vf_check(r.node.value().v==kv0,"the node handed back is intact");) } } post(m,true,had? ival:77,had?-1:0,had?-1:0,"");)
OP(insnodehint, { auto n=mknode(); base(); auto it=m.insert(m.end(),std::move(n)); at(m,it,"the position is that of the entry"); vf_check(!n.empty()==had,"a rejected node is handed back"); vf_check(nk==bk&&nv==bv,"the entry moves, nothing is copied"); } post(m,true,had? ival:77,had?-1:0,had?-1:0,"");)
OP(insnoempty, { M::node_type n; auto r=m.insert(std::move(n)); vf_check(!r.inserted&&r.node.empty()&&r.position==m.end(),"an empty node inserts nothing"); } look(m);)
