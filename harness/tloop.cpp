// C03 C04 C05 C14: the functions of raw_hash_set that walk over a whole table, for every capacity, by loop invariants.
// One arbitrary entry K0 is followed (its location loc0); the slots themselves are never read: the element type records every
// move, copy and destruction by address.  Control bytes are an array of symbolic length.  Callees are replaced by their contracts
// (find_first_non_full, set_ctrl, iterator skipping: table.cpp; ConvertDeletedToEmptyAndFullToDeleted: prim.cpp).
#include "verif.h"
#include <cstdlib>
extern "C" { bool gtl_verif_loop_hash_convert(const void*); bool gtl_verif_loop_hash_clear(size_t); bool gtl_verif_loop_hash_destroy(size_t); bool gtl_verif_loop_hash_resize(size_t); bool gtl_verif_loop_hash_drop_deletes(size_t); void* malloc(size_t); }
#include <gtl/phmap.hpp>
using namespace gtl; using namespace gtl::priv;
static constexpr size_t W=Group::kWidth;
static bool full(uint8_t c){ return c<0x80; } static bool emp(uint8_t c){ return c==0x80; } static bool del(uint8_t c){ return c==0xfe; }
struct GK; static GK* loc0; static bool live0; static size_t h0, hv0; static int moves0; // K0
static void ghost_move(GK* dst,GK* src); static void ghost_copy(GK* dst,const GK* src); static void ghost_destroy(GK*);
struct GK { char c[8]; GK(GK&& o) noexcept { ghost_move(this,&o); } GK(const GK& o){ ghost_copy(this,&o); } ~GK(){ ghost_destroy(this); } };
struct Hs { size_t operator()(const GK& k) const { return &k==loc0? h0:vf_u64(); } };
static const GK *eqa,*eqb; struct Eq { bool operator()(const GK&,const GK&) const { return vf_bool(); } };
inline bool operator==(const GK& a,const GK& b){ return vf_bool(); }
using R=raw_hash_set<FlatHashSetPolicy<GK>,Hs,Eq,std::allocator<GK>>; using Al=std::allocator<GK>;
static R* T; static size_t cap, ncap, size0; static uint8_t* D; static char S1[8], S2[8]; static GK *slots1, *slots2;
static size_t idx(const GK* base,const GK* p){ return ((size_t)p-(size_t)base)/sizeof(GK); }
static bool in(const GK* base,size_t c,const GK* p){ return idx(base,p)<c; }
static size_t s0; static bool had; static size_t last_o; static size_t last_hv; static bool found; static int n_dealloc, n_init, n_reset, n_resetg, n_conv; static const void* old_ctrl; static bool marked0, pending; static uint8_t tag0; static int mode; enum { RESIZE, DROP, DESTROY, COPY, MERGE, EQUAL, ERASEIF, SWAP };
static size_t pickcap(unsigned lo,unsigned hi){ unsigned k=vf_u8(); vf_assume(k>=lo&&k<=hi); return ((size_t)1<<k)-1; }
static void mk(R& t,unsigned lo){ T=&t; cap=pickcap(lo,40); D=(uint8_t*)malloc(cap+1+W); slots1=(GK*)S1; slots2=(GK*)S2; t.capacity_=cap; t.ctrl_=(ctrl_t*)D; t.slots_=slots1; size0=vf_u64(); vf_assume(size0<=CapacityToGrowth(cap)); t.size_=size0; t.growth_left()=vf_u64();
  s0=vf_u64(); vf_assume(s0<cap); had=full(D[s0]); h0=vf_u64(); loc0=had? slots1+s0:nullptr; live0=had; old_ctrl=D; }
static size_t grp(size_t p,size_t hv,size_t c){ return ((p-(hv>>7))&c)/W; }
static size_t npend; static bool in_b, missing, pred0; static size_t bsize; static int n_haselem0, erased0; static size_t q; static size_t nmoved; static R* SRC;
#ifdef VF_CBMC
extern "C" {
size_t __CPROVER_uninterpreted_mix(size_t);
__attribute__((used)) size_t vf_contract_mix(const void*,size_t a){ return __CPROVER_uninterpreted_mix(a); }
// contract: a free slot of the table, in the first group of the key's probe path that has one
__attribute__((used)) R::FindInfo vf_contract_ffnf(R* t,size_t hv){ vf_check(t==T,"a slot of the table is searched"); size_t o=vf_u64(); vf_assume(o<t->capacity_); last_o=o; last_hv=hv; found=true;
  if(mode==DROP){ vf_assume(emp(D[o])||del(D[o])); vf_assume(npend>=1); }
  else { if(marked0) vf_assume(o!=idx(t->slots_,loc0)); }
  return R::FindInfo{o,0}; }
__attribute__((used)) void vf_contract_set_ctrl(R* t,size_t i,ctrl_t h){ vf_check(t==T&&i<t->capacity_,"a control byte of the table is set");
  if(mode==DROP){ if(full((uint8_t)h)){ vf_check(found,"a slot was searched"); vf_check((uint8_t)h==(uint8_t)H2(last_hv),"the tag is that of the entry"); vf_check(i==last_o||grp(i,last_hv,cap)==grp(last_o,last_hv,cap),"the entry is in the first group of its probe path with a free slot"); }
    else vf_check(emp((uint8_t)h),"vacated slots become empty"); if(del(D[i])) --npend; D[i]=(uint8_t)h; }
  else { vf_check(found&&i==last_o,"the slot found is marked"); vf_check((uint8_t)h==(uint8_t)H2(last_hv),"with the tag of the entry"); if(mode==MERGE) vf_check(had&&q==s0? moves0==1&&loc0==slots2+i:true,"after the entry was moved there"); if(mode==RESIZE) vf_check(!marked0||i!=idx(t->slots_,loc0),"an occupied slot is not marked again"); pending=mode!=MERGE; } }
__attribute__((used)) void vf_contract_init(R* t,size_t c){ vf_check(IsValidCapacity(c),"capacities are 2^k-1"); vf_check(CapacityToGrowth(c)>=size0&&(c>=W||c>=size0),"the new table is large enough"); ++n_init; ncap=c; static ctrl_t nc[1]; t->ctrl_=nc; t->slots_=slots2; t->growth_left()=CapacityToGrowth(c)-t->size_; }
__attribute__((used)) void vf_contract_dealloc(Al*,void* p,size_t n){ vf_check(p==old_ctrl,"the table memory is released"); vf_check(n==R::MakeLayout(cap).AllocSize(),"with its size"); ++n_dealloc; }
__attribute__((used)) void vf_contract_convert(ctrl_t* c,size_t n){ vf_check((uint8_t*)c==D&&n==cap,"the whole table is converted"); ++n_conv; D=(uint8_t*)malloc(cap+1+W); T->ctrl_=(ctrl_t*)D; if(had) vf_assume(del(D[s0])); npend=vf_u64(); vf_assume(npend<=cap); }
__attribute__((used)) void vf_contract_reset_ctrl(R* t,size_t c){ vf_check(t==T&&c==t->capacity_,"all control bytes are reset"); ++n_reset; }
}
// iteration: begin() yields the walk at an arbitrary step (everything before position q visited), ++ goes to the next entry
static int nskip; static bool vis0; static void walk_init(); static void walk_state(); static void walk_step();
extern "C" __attribute__((used)) void vf_contract_cut(){ vf_cover("next step"); vf_assume(false); }
extern "C" __attribute__((used)) void vf_contract_skip(R::iterator* it){ ++nskip; size_t p=(size_t)it->ctrl_-(size_t)D; vf_check(idx(slots1,it->slot_)==p,"control byte and slot move together"); if(nskip==1){ vf_check(p==0,"a traversal starts at the first slot"); walk_init(); q=vf_u64(); vf_assume(q<=cap); if(q<cap) vf_assume(full(D[q])); vis0=had&&s0<q; walk_state(); }
  else { vf_check(p==q+1,"a traversal continues right after the slot visited"); bool e=vf_bool(); size_t q2=vf_u64(); vf_assume(q2>q&&q2<=cap); if(had&&s0>q) vf_assume(q2<=s0); if(had&&s0==q) vis0=true; if(mode==ERASEIF){ it->ctrl_=(ctrl_t*)D+q2; it->slot_=slots1+q2; return; } walk_step(); if(q2!=cap) vf_contract_cut(); q=q2; }
  it->ctrl_=(ctrl_t*)D+q; it->slot_=slots1+q; }
#define INV extern "C" __attribute__((used,noinline))
static int hookn;
// ---- resize
static bool inv_resize(size_t i){ return i<cap&&(!had||(s0<i? live0&&marked0&&in(slots2,ncap,loc0)&&tag0==(uint8_t)H2(hv0)&&moves0==1 : live0&&!marked0&&loc0==slots1+s0&&moves0==0))&&(had||!marked0)&&!pending; }
INV bool gtl_verif_loop_hash_resize(size_t i){ ++hookn; return inv_resize(i); }
INV void gtl_verif_havoc_hash_resize(size_t){ if(had){ marked0=vf_bool(); live0=true; if(marked0){ size_t n=vf_u64(); vf_assume(n<ncap); loc0=slots2+n; tag0=(uint8_t)H2(hv0); moves0=1; } else { loc0=slots1+s0; moves0=0; } } pending=false; found=false; }
// ---- drop_deletes: x0 is where K0 is; jj an arbitrary slot
static size_t jj; static bool done0;
static bool inv_drop(size_t i){ if(!(i<cap)) return false; if(jj<i&&del(D[jj])) return false; if(!had) return true; size_t x=idx(slots1,loc0); if(!(live0&&x<cap)) return false; return done0? D[x]==(uint8_t)H2(hv0) : (x>=i&&del(D[x])); }
INV bool gtl_verif_loop_hash_drop_deletes(size_t i){ ++hookn; if(had&&live0&&in(slots1,cap,loc0)) done0=full(D[idx(slots1,loc0)]); return inv_drop(i); }
INV void gtl_verif_havoc_hash_drop_deletes(size_t){ D=(uint8_t*)malloc(cap+1+W); T->ctrl_=(ctrl_t*)D; if(had){ size_t x=vf_u64(); vf_assume(x<cap); loc0=slots1+x; live0=true; } npend=vf_u64(); vf_assume(npend<=cap); found=false; }
INV size_t gtl_verif_var_hash_drop_deletes(size_t i){ unsigned k=0; size_t m=npend*64; return npend*4096+(cap-i); }
// ---- clear / destroy: K0's slot
static bool inv_destroy(size_t i){ return i<cap&&(had? live0==(s0>=i):true); }
INV bool gtl_verif_loop_hash_clear(size_t i){ ++hookn; return inv_destroy(i); }
INV bool gtl_verif_loop_hash_destroy(size_t i){ ++hookn; return inv_destroy(i); }
INV void gtl_verif_havoc_hash_clear(size_t){ if(had) live0=vf_bool(); }
INV void gtl_verif_havoc_hash_destroy(size_t){ if(had) live0=vf_bool(); }
// ---- control bytes: conversion and reset of the whole array; w is an arbitrary position in it
static size_t w; static uint8_t w0; static uint8_t conv(uint8_t c){ return full(c)? 0xfe:0x80; }
extern "C" void __CPROVER_havoc_object(void*);
INV bool gtl_verif_loop_hash_convert(const void* pos){ ++hookn; size_t p=(size_t)pos-(size_t)D; return p%W==0&&p<=cap&&(w<=cap? D[w]==(w<p? conv(w0):w0):true); }
INV void gtl_verif_sameobj_hash_convert(){}
INV void gtl_verif_havoc_hash_convert(const void*){ __CPROVER_havoc_object(D); }
HARNESS H_tl_convert(){ { cap=pickcap(W==16?4:3,40); D=(uint8_t*)malloc(cap+1+W); w=vf_u64(); vf_assume(w<=cap); w0=D[w]; vf_assume(D[cap]==0xff); ConvertDeletedToEmptyAndFullToDeleted((ctrl_t*)D,cap);
  vf_check(w<cap? D[w]==conv(w0):true,"full bytes become erased, all others empty"); vf_check(D[cap]==0xff,"the sentinel is kept"); if(w<W-1&&w<cap) vf_check(D[cap+1+w]==D[w],"the first group is mirrored after the table"); vf_cover("end"); } }
HARNESS H_tl_resetctrl(){ { alignas(R) static char mem[sizeof(R)]; R& t=*(R*)mem; cap=pickcap(1,40); D=(uint8_t*)malloc(cap+1+W); t.ctrl_=(ctrl_t*)D; t.capacity_=cap; t.reset_ctrl(cap); w=vf_u64(); vf_assume(w<cap+W); vf_check(D[w]==(w==cap? 0xff:0x80),"every control byte is empty, except the sentinel"); vf_cover("end"); } }
#endif
static void ghost_move(GK* dst,GK* src){
  if(mode==RESIZE){ vf_check(in(slots1,cap,src)&&full(D[idx(slots1,src)]),"entries of the old table are moved"); vf_check(found&&dst==slots2+last_o,"into the slot found for them"); if(had&&src==loc0){ vf_check(live0,"a live entry is moved"); loc0=dst; ++moves0; marked0=pending; tag0=(uint8_t)H2(last_hv); vf_check(last_hv==hv0,"the slot was searched with the hash of the entry"); } else vf_check(!(marked0&&dst==loc0),"no entry is overwritten"); }
  else if(mode==MERGE){ vf_check(src==slots1+q,"the entry visited is moved"); vf_check(found&&dst==slots2+last_o,"into the slot prepared for it"); if(had&&src==loc0){ loc0=dst; ++moves0; marked0=true; } else vf_check(!(had&&dst==loc0),"no entry is overwritten"); }
  else if(mode==DROP){ if(had&&src==loc0){ vf_check(live0,"a live entry is moved"); loc0=dst; ++moves0; } else vf_check(!(had&&live0&&dst==loc0),"no entry is overwritten"); }
}
static int copies0; static void ghost_copy(GK* d,const GK* s){ vf_check(mode==COPY,"entries are copied only by copying"); vf_check(s==slots1+q,"the entry visited is copied"); vf_check(found&&d==slots2+last_o,"into the slot found for it"); if(had&&q==s0){ ++copies0; vf_check(last_hv==hv0,"the slot was searched with the hash of the entry"); vf_check(pending,"the slot is marked"); } pending=false; found=false; }
static void ghost_destroy(GK* p){
  if(mode==RESIZE){ vf_check(in(slots1,cap,p)||p==nullptr,"moved-from entries of the old table are destroyed"); vf_check(!(had&&p==loc0),"the entry itself is not destroyed"); pending=false; found=false; }
  else if(mode==MERGE){ vf_check(p==slots1+q&&!(had&&p==loc0),"only the moved-from entry is destroyed"); }
  else if(mode==ERASEIF){ vf_check(p==slots1+q,"only the entry visited is destroyed"); if(had&&p==slots1+s0){ vf_check(live0,"no entry is destroyed twice"); vf_check(pred0,"only an entry the predicate accepts is destroyed"); live0=false; } }
  else if(mode==DROP){ vf_check(!(had&&p==loc0),"the entry itself is not destroyed"); }
  else if(mode==DESTROY){ vf_check(in(slots1,cap,p),"a slot of the table is destroyed"); if(idx(slots1,p)==s0){ vf_check(had,"only occupied slots are destroyed"); vf_check(live0,"no entry is destroyed twice"); live0=false; } }
}
#ifdef VF_CBMC
HARNESS H_tl_resize(){ { alignas(R) static char mem[sizeof(R)]; R& t=*(R*)mem; mk(t,1); mode=RESIZE; hv0=vf_contract_mix(nullptr,h0); size_t nc=pickcap(1,41); vf_assume(CapacityToGrowth(nc)>=size0); t.resize(nc);
  vf_check(t.capacity_==nc&&n_init==1,"the table has the new capacity"); vf_check(t.size_==size0,"the size is unchanged"); vf_check(t.growth_left()==CapacityToGrowth(nc)-size0,"the growth allowance is what is left"); vf_check(n_dealloc==1,"the old memory is released once"); if(had) vf_check(live0&&moves0==1&&marked0&&in(slots2,ncap,loc0),"every entry is moved to the new table exactly once and marked there"); vf_check(!pending,"no marked slot is left without an entry"); vf_cover("end"); if(had) vf_cover("K0"); } }
HARNESS H_tl_drop(){ { alignas(R) static char mem[sizeof(R)]; R& t=*(R*)mem; mk(t,W==16?4:3); mode=DROP; hv0=vf_contract_mix(nullptr,h0); jj=vf_u64(); vf_assume(jj<cap); t.drop_deletes_without_resize();
  vf_check(t.capacity_==cap&&t.size_==size0,"capacity and size are unchanged"); vf_check(t.growth_left()==CapacityToGrowth(cap)-size0,"all erased slots are reclaimed"); vf_check(n_conv==1,"the control bytes are converted once"); vf_check(!del(D[jj]),"no erased slot is left"); if(had){ size_t x=idx(slots1,loc0); vf_check(live0&&x<cap&&D[x]==(uint8_t)H2(hv0),"every entry is in a slot marked with its tag"); } vf_cover("end"); if(had) vf_cover("K0"); } }
HARNESS H_tl_destroy(){ { alignas(R) static char mem[sizeof(R)]; R& t=*(R*)mem; mk(t,1); mode=DESTROY; t.destroy_slots(); vf_check(!live0,"every entry is destroyed"); vf_check(n_dealloc==1,"the memory is released once"); vf_check(t.capacity_==0&&t.size_==0&&t.growth_left()==0&&t.slots_==nullptr&&t.ctrl_==(ctrl_t*)EmptyGroup<R::std_alloc_t>(),"an empty table without memory is left"); vf_cover("end"); if(had) vf_cover("K0"); } }
HARNESS H_tl_clear(){ { alignas(R) static char mem[sizeof(R)]; R& t=*(R*)mem; mk(t,1); mode=DESTROY; if(had) vf_assume(size0>0); size_t gl=t.growth_left(); t.clear(); vf_check(!live0,"every entry is destroyed"); vf_check(n_dealloc==0&&t.capacity_==cap,"the memory is kept"); vf_check(t.size_==0,"nothing is left"); if(size0) vf_check(n_reset==1&&t.growth_left()==CapacityToGrowth(cap),"the whole capacity is available again"); else vf_check(n_reset==0&&t.growth_left()==gl,"an empty table is left as it is"); vf_cover("end"); if(had) vf_cover("K0"); } }
// ---- copying, comparing, merging, erase_if

static void walk_init(){ if(mode==COPY){ vf_check(copies0==0,"nothing is copied before"); vf_check(T->capacity_==cap,"the copy has the capacity of the original"); } }
static void walk_state(){ if(mode==COPY) copies0=vis0? 1:0; if(mode==EQUAL&&vis0) vf_assume(in_b); found=false; pending=false;
  if(mode==MERGE){ moves0=vis0&&!in_b? 1:0; live0=had; loc0=had? (moves0? slots2+0:slots1+s0):nullptr; if(moves0){ size_t n=vf_u64(); vf_assume(n<ncap); loc0=slots2+n; marked0=true; } erased0=moves0; nmoved=vf_u64(); vf_assume(nmoved<=size0&&nmoved<=q); SRC->size_=size0-nmoved; T->size_=bsize+nmoved; }
  if(mode==ERASEIF){ erased0=vis0&&pred0? 1:0; live0=had&&!erased0; nmoved=vf_u64(); vf_assume(nmoved<=size0&&nmoved<=q&&size0-nmoved>=(q<cap? 1u:0u)); T->size_=size0-nmoved; } }
static void walk_step(){ if(mode==EQUAL) vf_check(!vis0||in_b,"the comparison goes on only while entries are found"); if(mode==MERGE){ vf_check(!pending,"no marked slot without an entry"); int want=vis0&&!in_b? 1:0; if(had) vf_check(moves0==want&&erased0==want&&live0,"an entry moves exactly if the target lacks its key, and leaves the source exactly then"); vf_check(SRC->size_==size0-nmoved&&T->size_==bsize+nmoved,"sizes follow the moves"); }
  if(mode==ERASEIF){ if(had) vf_check((erased0==1)==(vis0&&pred0),"erase_if removes exactly the entries the predicate accepts"); vf_check(T->size_==size0-nmoved,"the size follows"); }
  if(mode==COPY) vf_check(copies0==(vis0?1:0)&&!pending,"every entry visited is copied exactly once"); }
extern "C" { 
__attribute__((used)) void vf_contract_resize(R* t,size_t c){ vf_check(t==T&&t->size_==0,"room is made in the copy"); vf_check(IsValidCapacity(c)&&CapacityToGrowth(c)>=size0,"the copy is large enough"); t->capacity_=c; t->slots_=slots2; static ctrl_t nc[1]; t->ctrl_=nc; t->growth_left()=CapacityToGrowth(c); ++n_init; }
__attribute__((used)) bool vf_contract_has_element(const R* t,const GK* e,size_t hv){ vf_check(t==T,"looked for in the other container"); bool r=vf_bool(); if(had&&e==slots1+s0){ ++n_haselem0; vf_check(hv==hv0,"with the hash of the entry"); r=in_b; } if(!r) missing=true; return r; }
}
extern "C" {
__attribute__((used)) size_t vf_contract_find_key(R* t,const GK* k,size_t hv){ vf_check(t==T,"looked up in the target"); vf_check(k==slots1+q,"the entry visited is looked up"); if(had&&q==s0){ vf_check(hv==hv0,"with its hash"); last_hv=hv; return in_b? 5:(size_t)-1; } last_hv=hv; return vf_bool()? vf_u64()>>24:(size_t)-1; }
__attribute__((used)) size_t vf_contract_prepare(R* t,size_t hv){ vf_check(t==T&&hv==last_hv,"a slot of the target is prepared for the entry"); vf_check(!(had&&q==s0&&in_b),"only for a key the target lacks"); size_t o=vf_u64(); vf_assume(o<ncap); if(marked0&&had&&moves0) vf_assume(slots2+o!=loc0); last_o=o; found=true; ++t->size_; return o; }
__attribute__((used)) void vf_contract_erase_meta(R* t,R::const_iterator it){ if(mode==MERGE) vf_check(t==SRC,"the entry leaves the source"); else vf_check(t==T,"the entry leaves the container"); size_t p=(size_t)it.inner_.ctrl_-(size_t)D; vf_check(p==q,"the entry visited is removed"); if(had&&p==s0){ ++erased0; if(mode==MERGE) vf_check(moves0==1,"after it was moved"); else vf_check(!live0,"after it was destroyed"); } --t->size_; ++nmoved; }
}
HARNESS H_tl_merge(){ { alignas(R) static char m1[sizeof(R)], m2[sizeof(R)]; R& a=*(R*)m1; mk(a,1); SRC=&a; R& b=*(R*)m2; T=&b; mode=MERGE; hv0=vf_contract_mix(nullptr,h0); b.slots_=slots2; ncap=pickcap(1,40); b.capacity_=ncap; bsize=vf_u64(); vf_assume(bsize<=ncap); b.size_=bsize; in_b=vf_bool(); b.merge(a);
  if(had){ if(in_b) vf_check(moves0==0&&erased0==0&&loc0==slots1+s0,"an entry whose key the target has stays in the source"); else vf_check(moves0==1&&erased0==1&&in(slots2,ncap,loc0),"an entry whose key the target lacks is moved"); vf_check(live0,"no entry is lost"); } vf_check(a.size_==size0-nmoved&&b.size_==bsize+nmoved,"the sizes follow"); vf_cover("end"); if(had&&in_b) vf_cover("kept"); if(had&&!in_b) vf_cover("moved"); } }
HARNESS H_tl_eraseif(){ { alignas(R) static char m1[sizeof(R)]; R& a=*(R*)m1; mk(a,1); mode=ERASEIF; pred0=vf_bool(); size_t r=gtl::priv::erase_if(a,[&](const GK& k){ if(nskip>1){ walk_step(); vf_contract_cut(); } vf_check(&k==slots1+q,"the predicate sees the entry visited"); return had&&q==s0? pred0:vf_bool(); }); if(had) vf_check((erased0==1)==pred0&&live0==!pred0,"erase_if removes exactly the entries the predicate accepts"); vf_check(r==nmoved&&a.size_==size0-nmoved,"the number removed is reported"); vf_cover("end"); if(had) vf_cover("K0"); } }
// moving and swapping: the representation changes hands as a whole
static bool same(R& t,ctrl_t* c,GK* sl,size_t n,size_t cp,size_t gl){ return t.ctrl_==c&&t.slots_==sl&&t.size_==n&&t.capacity_==cp&&t.growth_left()==gl; }
#define TWO alignas(R) static char m1[sizeof(R)], m2[sizeof(R)]; R& a=*(R*)m1; R& b=*(R*)m2; mode=SWAP; static ctrl_t ca[1], cb[1]; GK *sa=(GK*)S1,*sb=(GK*)S2; size_t na=vf_u64(),nb=vf_u64(),pa=pickcap(1,40),pb=pickcap(1,40),ga=vf_u64(),gb=vf_u64(); a.ctrl_=ca; a.slots_=sa; a.size_=na; a.capacity_=pa; a.growth_left()=ga; b.ctrl_=cb; b.slots_=sb; b.size_=nb; b.capacity_=pb; b.growth_left()=gb; n_destroy=0;
#define EMPTYT(t) same(t,(ctrl_t*)EmptyGroup<R::std_alloc_t>(),nullptr,0,0,0)
static int n_destroy; static R* destroyed; static ctrl_t* dctrl; extern "C" __attribute__((used)) void vf_contract_destroy_slots(R* t){ if(t->capacity_==0) return; ++n_destroy; dctrl=t->ctrl_; t->ctrl_=(ctrl_t*)EmptyGroup<R::std_alloc_t>(); t->slots_=nullptr; t->size_=0; t->capacity_=0; t->growth_left()=0; }
HARNESS H_tl_swap(){ { TWO a.swap(b); vf_check(same(a,cb,sb,nb,pb,gb)&&same(b,ca,sa,na,pa,ga),"swap exchanges the whole contents"); vf_check(n_destroy==0,"nothing is destroyed"); vf_cover("end"); } }
HARNESS H_tl_swapself(){ { TWO a.swap(a); vf_check(same(a,ca,sa,na,pa,ga),"swapping with itself changes nothing"); vf_cover("end"); } }
HARNESS H_tl_movector(){ { TWO alignas(R) static char m3[sizeof(R)]; new(m3) R(std::move(a)); R& c=*(R*)m3; vf_check(same(c,ca,sa,na,pa,ga)&&EMPTYT(a)&&n_destroy==0,"move construction takes everything and leaves an empty container"); vf_cover("end"); } }
HARNESS H_tl_movectoral(){ { TWO alignas(R) static char m3[sizeof(R)]; new(m3) R(std::move(a),Al()); R& c=*(R*)m3; vf_check(same(c,ca,sa,na,pa,ga)&&EMPTYT(a)&&n_destroy==0,"move construction takes everything and leaves an empty container"); vf_cover("end"); } }
HARNESS H_tl_moveasg(){ { TWO a=std::move(b); vf_check(same(a,cb,sb,nb,pb,gb),"move assignment takes everything"); vf_check(n_destroy+(b.capacity_==pa&&b.ctrl_==ca&&b.slots_==sa&&b.size_==na?1:0)==1,"the old contents are destroyed once or handed over"); if(n_destroy) vf_check(dctrl==ca,"the old contents are destroyed"); vf_cover("end"); } }
HARNESS H_tl_copy(){ { alignas(R) static char m1[sizeof(R)], m2[sizeof(R)]; R& a=*(R*)m1; mk(a,1); mode=COPY; hv0=vf_contract_mix(nullptr,h0); T=(R*)m2; new(m2) R(a,Al()); R& b=*T; vf_check(b.size_==size0&&a.size_==size0,"the copy has the size of the original"); vf_check(b.growth_left()==CapacityToGrowth(b.capacity_)-size0,"and the right growth allowance"); if(had) vf_check(copies0==1,"every entry is copied exactly once"); else vf_check(copies0==0,"nothing is invented"); vf_check(!pending,"no marked slot without an entry"); vf_cover("end"); if(had) vf_cover("K0"); } }
HARNESS H_tl_equal(){ { alignas(R) static char m1[sizeof(R)], m2[sizeof(R)]; R& a=*(R*)m1; mk(a,1); R& b=*(R*)m2; T=&b; bsize=vf_u64(); b.size_=bsize; b.capacity_=pickcap(1,40); vf_assume(b.capacity_>=a.capacity_); in_b=vf_bool(); mode=EQUAL; hv0=vf_contract_mix(nullptr,h0); bool r=a==b; if(r){ vf_check(bsize==size0,"equal containers have equal sizes"); if(had) vf_check(in_b,"every entry of one is in the other"); vf_check(!missing,"no entry was missing"); vf_cover("equal"); } else { vf_check(bsize!=size0||missing,"containers differ in size or in an entry"); vf_cover("different"); } } }
HARNESS H_tl_equal2(){ { alignas(R) static char m1[sizeof(R)], m2[sizeof(R)]; R& a=*(R*)m1; mk(a,1); R& b=*(R*)m2; T=&b; bsize=vf_u64(); b.size_=bsize; b.capacity_=pickcap(1,40); vf_assume(b.capacity_>a.capacity_); in_b=vf_bool(); mode=EQUAL; hv0=vf_contract_mix(nullptr,h0); bool r=b==a; if(r){ vf_check(bsize==size0,"equal containers have equal sizes"); if(had) vf_check(in_b,"every entry of one is in the other"); vf_check(!missing,"no entry was missing"); vf_cover("equal"); } else { vf_check(bsize!=size0||missing,"containers differ in size or in an entry"); vf_cover("different"); } } }
#endif
