// C01 C02 C03 C04 C14: the hash table (raw_hash_set), function by function, for every capacity.
//
// The table is an arbitrary one: capacity 2^k-1 (k symbolic), control bytes and contents symbolic.  The representation
// invariant is assumed of the input state at the places a function looks at, and shown of the output state at an arbitrary place.
//   [layout]   ctrl[cap] is the sentinel; ctrl[cap+1+t]==ctrl[t] for t<min(cap,W-1); the remaining bytes are empty
//   [unique]   at most one full slot holds a given key
//   [path]     a full slot holding key k has tag H2(h(k)); its group is on k's probe path and no group before it has an empty byte
//   [count]    growth_left + size + #deleted == CapacityToGrowth(cap); small tables have no deleted slots
// Loops over a probe sequence are cut: probe() yields the sequence at an arbitrary iteration satisfying the loop invariant, next()
// is where the invariant has to hold again (and ends the path).  The real probe_seq is proved in prim.cpp (C10).
#include "verif.h"
#include <cstdlib>
#include <gtl/phmap.hpp>
using namespace gtl; using namespace gtl::priv;
static constexpr size_t W=Group::kWidth;
struct Key { int v; };
static Key k0; static size_t hv0;               // the key looked for and its (mixed) hash
static size_t cap; static Key* slots; // the table
static bool present; static size_t s0;          // K0 is present, at s0
static bool full(uint8_t c){ return c<0x80; } static bool emp(uint8_t c){ return c==0x80; } static bool del(uint8_t c){ return c==0xfe; }
static bool sane(uint8_t c){ return full(c)||emp(c)||del(c); }
struct Hs { size_t operator()(const Key& k) const { return (size_t)k.v; } };
static bool occupied(size_t i);
struct Eq { bool operator()(const Key& a,const Key& b) const { const Key* p=&a==&k0? &b:&a; vf_check(&a==&k0||&b==&k0,"the key asked for is compared"); size_t i=((size_t)p-(size_t)slots)/sizeof(Key); vf_check(i<cap,"only slots of the table are compared"); vf_check(occupied(i),"only occupied slots are compared"); return present&&i==s0; } };
inline bool operator==(const Key& a,const Key& b){ return Eq()(a,b); }
using Set=raw_hash_set<FlatHashSetPolicy<Key>,Hs,Eq,std::allocator<Key>>;
using PS=probe_seq<Group::kWidth>;
static void mkcap(Set& t,unsigned maxk){ unsigned k=(unsigned)vf_u8(); vf_assume(k>=1&&k<=maxk); cap=((size_t)1<<k)-1; t.capacity_=cap; }
static bool dropping; static void drop(Set& t){ t.capacity_=0; dropping=true; }
// ------------------------------------------------------------------ probing: every capacity
// The group examined lies at ctrl_+off; its W bytes are B.  (A read of any other control byte is out of bounds of B and refuted.)
static uint8_t B[W]; static size_t off; static bool at_end; static int mode; enum { M_FIND, M_FREE }; static size_t f0; static Key slot_base;
static bool occupied(size_t i){ size_t j=(i-off)&cap; return j<W&&full(B[j]); }
static bool w_empty(){ bool r=false; for(size_t j=0;j<W;++j) r|=emp(B[j]); return r; }
static size_t pos(size_t s){ return (s-off)&cap; }
static void window(){ for(size_t j=0;j<W;++j){ size_t p=off+j; B[j]=vf_u8(); if(p<cap) vf_assume(sane(B[j])); else if(p==cap) vf_assume(B[j]==0xff); else { size_t t=p-cap-1; if(t<cap&&t<W-1){ vf_assume(sane(B[j])); if(t>=off) vf_assume(B[j]==B[t-off]); } else vf_assume(emp(B[j])); } } }
static void mk(Set& t){ mkcap(t,62); off=vf_u64(); vf_assume(off<=cap); window(); t.ctrl_=(ctrl_t*)((uint8_t*)B-off); slots=&slot_base; t.slots_=(decltype(t.slots_))slots; at_end=vf_bool(); }
#ifdef VF_CBMC
extern "C" {
__attribute__((used)) void vf_contract_probe(PS* s,size_t h,size_t mask){ vf_check(mask==cap,"probing is masked with the capacity"); vf_check(h==H1(hv0,nullptr),"probing starts from the key's hash"); s->mask_=cap; s->offset_=off; s->index_=vf_u64(); }
static bool stepped; // after a step the rest of the loop body is still followed, up to the examination of the next group
__attribute__((used)) void vf_contract_next(PS* s){ vf_check(s->offset_==off,"one group is examined per step");
  if(mode==M_FIND){ if(present) vf_check(!at_end,"a lookup does not go past the group that holds the key"); else vf_check(!at_end,"a lookup ends at a group with an empty slot"); }
  else { vf_check(!at_end,"the search ends at a group with a free slot"); vf_check(!w_empty(),"no group before the chosen one has an empty slot"); }
  if(stepped) vf_assume(false); /* the next group: covered by the induction hypothesis */ stepped=true; s->index_=vf_u64(); vf_cover("continues"); }
// the loop over the matches of one group is cut the same way: Match() yields the matches still to be looked at (contract of Match: C10)
using BM=decltype(std::declval<const Group&>().Match(0)); using BMT=decltype(BM::mask_); static BMT mbits; static bool first;
static constexpr int SH=W==16? 0:3; static BMT bitof(size_t j){ return W==16? (BMT)1<<j : (BMT)0x80<<(8*j); }
__attribute__((used)) BM vf_contract_match(const Group* g,h2_t h){ if(h==0x80){ BMT m=0; for(size_t j=0;j<W;++j) if(((const uint8_t*)&g->ctrl)[j]==0x80) m|=bitof(j); return BM(m); } // MatchEmpty
  if(stepped) vf_assume(false); vf_check(h==(h2_t)H2(hv0),"the tag of the key is looked for"); unsigned b=(unsigned)vf_upto(W); BMT m=0; for(size_t j=0;j<W;++j){ uint8_t c=(uint8_t)((const uint8_t*)&g->ctrl)[j]; vf_check(c==B[j],"the group examined is the one at the probe position"); if(j>=b&&(c==(uint8_t)h||(W==8&&full(c)&&vf_bool()))) m|=bitof(j); } if(present&&at_end) vf_assume(pos(s0)>=b); mbits=m; return BM(m); }
__attribute__((used)) BM& vf_contract_inc(BM* m){ vf_check(m->mask_==mbits&&mbits!=0,"matches are looked at one by one"); if(present&&at_end){ size_t j=0; for(;j<W&&!(mbits&bitof(j));++j); vf_check(j!=pos(s0),"the match that holds the key ends the search"); } vf_cover("next match"); vf_assume(false); return *m; }
}
#endif
static void setup(Set& t){ mk(t); k0.v=(int)vf_u32(); hv0=vf_u64(); present=vf_bool(); s0=vf_u64(); mode=M_FIND; if(present){ vf_assume(s0<cap); if(at_end) vf_assume(pos(s0)<W&&B[pos(s0)]==(uint8_t)H2(hv0)); else vf_assume(!w_empty()); } else if(at_end) vf_assume(w_empty()); }
HARNESS H_t_find_key(){ { Set t; setup(t); size_t r=t._find_key(k0,hv0); vf_check(r==(present? s0:(size_t)-1),"_find_key returns the slot of the key, or says it is absent"); vf_cover("end"); drop(t); } }
HARNESS H_t_find_impl(){ { Set t; setup(t); size_t o; bool r=t.find_impl(k0,hv0,o); vf_check(r==present,"find_impl finds the key exactly when it is present"); if(r) vf_check(o==s0,"find_impl returns the slot of the key"); vf_cover("end"); drop(t); } }
HARNESS H_t_has_element(){ { Set t; setup(t); bool r=t.has_element(k0,hv0); vf_check(r==present,"an equal entry is found exactly when there is one"); vf_cover("end"); drop(t); } }
HARNESS H_t_first_free(){ { Set t; mk(t); hv0=vf_u64(); f0=vf_u64(); mode=M_FREE; vf_assume(f0<cap); if(at_end) vf_assume(pos(f0)<W&&(emp(B[pos(f0)])||del(B[pos(f0)]))); else vf_assume(cap>=W); auto r=t.find_first_non_full(hv0); vf_check(r.offset<cap,"the free slot is inside the table"); size_t j=pos(r.offset); vf_check(j<W,"the slot is in the group examined"); vf_check(emp(B[j])||del(B[j]),"the slot found is free"); vf_cover("end"); drop(t); } }
// ------------------------------------------------------------------ control bytes: every content, capacities up to VF_CAP
#ifndef VF_CAP
#define VF_CAP 63
#endif
static uint8_t C[VF_CAP+1+W]; // the last byte is never part of a group
static bool layout_at(size_t p){ if(p<cap) return sane(C[p]); if(p==cap) return C[p]==0xff; size_t t=p-cap-1; if(t<cap&&t<W-1) return C[p]==C[t]; return emp(C[p]); }
static void mkc(Set& t){ cap=VF_CAP; t.capacity_=cap; for(size_t p=0;p<cap+W;++p){ C[p]=vf_u8(); vf_assume(layout_at(p)); } t.ctrl_=(ctrl_t*)C; t.slots_=(decltype(t.slots_))&slot_base; }
static bool window_has_empty(size_t w){ bool r=false; for(size_t j=0;j<W;++j) r|=emp(C[w+j]); return r; }
HARNESS H_t_set_ctrl(){ { Set t; mkc(t); size_t i=vf_below(VF_CAP), g=vf_below(VF_CAP+W); uint8_t old=C[g]; uint8_t h=vf_u8(); vf_assume(sane(h)); t.set_ctrl(i,(ctrl_t)h);
  vf_check(C[i]==h,"the control byte is set"); bool mirror=g==cap+1+i&&i<W-1; if(g!=i&&!mirror) vf_check(C[g]==old,"no other control byte changes"); vf_check(layout_at(g),"copies of control bytes stay in step"); vf_cover("end"); drop(t); } }
HARNESS H_t_erase_meta(){ { Set t; mkc(t); size_t i=vf_below(VF_CAP), g=vf_below(VF_CAP+W), w=vf_upto(VF_CAP); vf_assume(full(C[i]));
  size_t n=vf_u64(), d=vf_u64(), gl; vf_assume(n>=1&&n<=cap&&d<=cap); size_t G=CapacityToGrowth(cap); vf_assume(n+d<=G); gl=G-n-d; if(cap<W-1) vf_assume(d==0); t.size_=n; t.growth_left()=gl; uint8_t old=C[g]; bool wfree=window_has_empty(w), inw=((i-w)&cap)<W;
  t.erase_meta_only(t.iterator_at(i));
  bool e=emp(C[i]); vf_check(e||del(C[i]),"the slot becomes empty or deleted"); if(g!=i&&g!=cap+1+i) vf_check(C[g]==old,"no other control byte changes"); vf_check(layout_at(g),"copies of control bytes stay in step");
  vf_check(t.size_==n-1,"the size drops by one"); vf_check(t.growth_left()==gl+(e?1:0),"the growth allowance counts empty slots only");
  if(cap<W-1) vf_check(e,"small tables have no tombstones");
  if(e&&inw) vf_check(wfree,"a slot is made empty only if every group containing it already had an empty slot");
  vf_cover("end"); if(VF_CAP>=W&&!e) vf_cover("tombstone"); drop(t); } }
// ---- the same two functions for every capacity: control bytes in an array of symbolic length; the layout is assumed where it is looked at
#ifdef VF_CBMC
extern "C" void* malloc(size_t);
static uint8_t* D; static bool dl(size_t p){ if(p<cap) return sane(D[p]); if(p==cap) return D[p]==0xff; size_t t=p-cap-1; if(t<cap&&t<W-1) return D[p]==D[t]&&sane(D[t]); return emp(D[p]); }
static void mkd(Set& t){ mkcap(t,40); D=(uint8_t*)malloc(cap+1+W); t.ctrl_=(ctrl_t*)D; t.slots_=(decltype(t.slots_))&slot_base; }
static bool dwe(size_t w){ bool r=false; for(size_t j=0;j<W;++j) r|=emp(D[w+j]); return r; }
HARNESS H_t_set_ctrl_any(){ { Set t; mkd(t); size_t i=vf_u64(), g=vf_u64(); vf_assume(i<cap&&g<cap+W); vf_assume(dl(g)&&dl(i)&&dl(cap+1+(i&(W-1)))); uint8_t old=D[g]; uint8_t h=vf_u8(); vf_assume(sane(h)); t.set_ctrl(i,(ctrl_t)h);
  vf_check(D[i]==h,"the control byte is set"); bool mirror=g==cap+1+i&&i<W-1; if(g!=i&&!mirror) vf_check(D[g]==old,"no other control byte changes"); vf_check(dl(g),"copies of control bytes stay in step"); vf_cover("end"); drop(t); } }
// ---- erasing, every capacity >= 2W-1: the control bytes around the slot, cyclically (what [layout] says a group read from there holds)
static uint8_t Cy[2*W]; static size_t ei; static int n_setc; static uint8_t setv; static Set* ET; static bool wfree(size_t j){ bool r=false; for(size_t x=0;x<W;++x) r|=emp(Cy[W-j+x]); return r; } // the group that has the slot at position j
extern "C" {
__attribute__((used)) void vf_contract_group(Group* g,const ctrl_t* p){ size_t o=(size_t)p-(size_t)ET->ctrl_; vf_check(o<=cap,"groups are read inside the table"); size_t d=(o-ei+W)&cap; vf_check(d<=W,"the groups examined are next to the slot"); if(d>W) d=0; for(size_t x=0;x<W;++x) ((uint8_t*)g)[x]=Cy[d+x]; }
__attribute__((used)) void vf_contract_setc(Set* t,size_t i,ctrl_t h){ vf_check(t==ET&&i==ei,"the control byte of the slot is set"); ++n_setc; setv=(uint8_t)h; }
}
HARNESS H_t_erase_meta_any(){ { Set t; ET=&t; mkcap(t,40); vf_assume(cap>=2*W-1); static char base; t.ctrl_=(ctrl_t*)&base; t.slots_=(decltype(t.slots_))&slot_base; ei=vf_u64(); vf_assume(ei<cap); for(size_t x=0;x<2*W;++x) { Cy[x]=vf_u8(); vf_assume(sane(Cy[x])||Cy[x]==0xff); } vf_assume(full(Cy[W])); size_t j=vf_below(W);
  size_t n=vf_u64(), d=vf_u64(), gl; vf_assume(n>=1&&n<=cap&&d<=cap); size_t G=CapacityToGrowth(cap); vf_assume(n+d<=G); gl=G-n-d; t.size_=n; t.growth_left()=gl;
  t.erase_meta_only(t.iterator_at(ei));
  vf_check(n_setc==1,"the control byte is set once"); bool e=emp(setv); vf_check(e||del(setv),"the slot becomes empty or deleted"); vf_check(t.size_==n-1,"the size drops by one"); vf_check(t.growth_left()==gl+(e?1:0),"the growth allowance counts empty slots only");
  if(e) vf_check(wfree(j),"a slot is made empty only if every group containing it already had an empty slot");
  vf_cover("end"); if(!e) vf_cover("tombstone"); drop(t); } }
// ---- growth: [count] growth_left + size + erased slots == CapacityToGrowth(capacity)
static size_t ndel; static Set* GT; static uint8_t* GD; static int n_resize,n_dropd,n_destroyt,n_grow;
static void mkg(Set& t,unsigned lo){ GT=&t; unsigned k=vf_u8(); vf_assume(k>=lo&&k<=50); cap=((size_t)1<<k)-1; t.capacity_=cap; size_t n=vf_u64(); ndel=vf_u64(); size_t G=CapacityToGrowth(cap); vf_assume(n<=G&&ndel<=G&&n+ndel<=G); if(cap<W-1) vf_assume(ndel==0); t.size_=n; t.growth_left()=G-n-ndel; static uint8_t one[1]; if(cap==0){ one[0]=0xff; GD=one; } else GD=(uint8_t*)malloc(cap+1+W); t.ctrl_=(ctrl_t*)GD; t.slots_=(decltype(t.slots_))&slot_base; }
static bool countinv(Set& t){ return t.growth_left()<=CapacityToGrowth(t.capacity_)&&t.growth_left()+t.size_+ndel==CapacityToGrowth(t.capacity_); }
static void newtab(Set* t,size_t c){ t->capacity_=c; ndel=0; t->growth_left()=CapacityToGrowth(c)-t->size_; GD=(uint8_t*)malloc(c+1+W); t->ctrl_=(ctrl_t*)GD; }
extern "C" {
__attribute__((used)) void vf_contract_resize(Set* t,size_t c){ vf_check(t==GT,"the table is resized"); vf_check(c>0&&((c+1)&c)==0,"capacities are 2^k-1"); vf_check(CapacityToGrowth(c)>=t->size_,"the entries fit, and probing still ends"); ++n_resize; newtab(t,c); }
__attribute__((used)) void vf_contract_dropd(Set* t){ vf_check(t==GT&&t->capacity_>=W-1,"tombstones are dropped in a large table"); ++n_dropd; newtab(t,t->capacity_); }
__attribute__((used)) void vf_contract_destroyt(Set* t){ if(dropping) return; vf_check(t==GT&&t->size_==0,"only an empty table gives up its memory"); ++n_destroyt; t->capacity_=0; t->growth_left()=0; ndel=0; }
__attribute__((used)) void vf_contract_grow(Set* t){ vf_check(t==GT&&countinv(*t),"count"); vf_check(t->growth_left()==0||ndel>0,"growth is for full tables and tables with erased slots"); ++n_grow; size_t c=t->capacity_; if(vf_bool()){ vf_assume(c>=W-1&&t->size_<=CapacityToGrowth(c)/2); newtab(t,c); } else newtab(t,c*2+1); }
__attribute__((used)) Set::FindInfo vf_contract_ffnf(Set* t,size_t hv){ vf_check(t==GT&&hv==hv0,"a slot is searched with the hash of the key"); if(t->capacity_==0) return {0,0}; vf_check(t->size_<t->capacity_||t->capacity_<W-1,"the search ends"); size_t o=vf_u64(); vf_assume(o<t->capacity_); if(t->size_<t->capacity_){ vf_assume(emp(GD[o])||del(GD[o])); if(ndel==0) vf_assume(emp(GD[o])); } else { vf_assume(o==0); vf_assume(full(GD[o])); } return {o,0}; }
}
HARNESS H_t_prepare(){ { Set t; mkg(t,0); hv0=vf_u64(); size_t n=t.size_; size_t o=t.prepare_insert(hv0); vf_check(o<t.capacity_,"the slot is in the table"); vf_check(emp(GD[o])||del(GD[o]),"the slot is free"); vf_check(t.size_==n+1,"the size grows by one"); if(del(GD[o])){ vf_check(ndel>0,"count"); --ndel; } vf_check(countinv(t),"the growth allowance counts the empty slots"); vf_cover("end"); if(n_grow) vf_cover("after growing"); drop(t); } }
HARNESS H_t_grow(){ { Set t; mkg(t,0); vf_assume(t.growth_left()==0||ndel>0); size_t n=t.size_, c=t.capacity_; t.rehash_and_grow_if_necessary(); vf_check(t.size_==n,"the size is unchanged"); vf_check(t.growth_left()>=1,"there is room for another entry"); vf_check(t.capacity_>=c&&n_resize+n_dropd==1,"the table is rebuilt once and does not shrink"); vf_check(countinv(t)&&ndel==0,"the growth allowance counts the empty slots"); vf_cover("end"); if(n_dropd) vf_cover("in place"); drop(t); } }
HARNESS H_t_rehash(){ { Set t; mkg(t,0); size_t n=t.size_, m=vf_u64(); vf_assume(m<((size_t)1<<50)); t.rehash(m); vf_check(t.size_==n,"the size is unchanged"); vf_check(t.capacity_>=m,"rehash(n) gives at least n buckets"); vf_check(countinv(t),"the growth allowance counts the empty slots"); vf_check(n_resize+n_destroyt<=1,"the table is rebuilt at most once"); if(m==0&&n==0) vf_check(t.capacity_==0,"rehash(0) of an empty container frees its memory"); vf_cover("end"); if(n_resize) vf_cover("resized"); drop(t); } }
HARNESS H_t_reserve(){ { Set t; mkg(t,0); size_t n=t.size_, m=vf_u64(); vf_assume(m<((size_t)1<<48)); t.reserve(m); vf_check(t.size_==n,"the size is unchanged"); vf_check(t.size_+t.growth_left()>=m,"after reserve(n), holding n entries needs no growth"); vf_check(countinv(t),"the growth allowance counts the empty slots"); vf_cover("end"); if(n_grow) vf_cover("erased slots reclaimed"); drop(t); } }
// ---- iteration: one step of skip_empty_or_deleted, from any slot
static uint8_t Wd[2*W+2]; static int n_cnt; static size_t adv;
extern "C" __attribute__((used)) uint32_t vf_contract_count(const Group* g){ if(++n_cnt==1){ uint32_t r=0; bool run=true; for(size_t x=0;x<W;++x){ vf_check(((uint8_t*)g)[x]==Wd[x],"the group at the iterator is examined"); run=run&&(emp(Wd[x])||del(Wd[x])); r+=run; } adv=r; return r; }
  for(size_t x=0;x<W;++x) if(x<adv) vf_check(!full(Wd[x])&&Wd[x]!=0xff,"no entry and no end is skipped"); vf_check(adv>=1,"iteration makes progress"); vf_cover("next group"); vf_assume(false); return 0; }
HARNESS H_t_skip(){ { for(size_t x=0;x<2*W+2;++x){ Wd[x]=vf_u8(); vf_assume(sane(Wd[x])||Wd[x]==0xff); } static Key sl[2*W+2]; Set::iterator it((ctrl_t*)Wd,sl); it.skip_empty_or_deleted(); size_t d=(uint8_t*)it.ctrl_-Wd; vf_check(d<=W&&it.slot_==sl+d,"control byte and slot move together"); vf_check(full(Wd[d])||Wd[d]==0xff,"iteration stops at an entry or at the end"); for(size_t x=0;x<W;++x) if(x<d) vf_check(emp(Wd[x])||del(Wd[x]),"no entry and no end is skipped"); vf_cover("end"); } }
#endif
