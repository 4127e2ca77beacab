// C08: raw_hash_set::phmap_dump / phmap_load of the real code, every capacity, size and growth budget.  The archive is a ghost
// stream: small writes are kept by value, the control bytes and the slots as whole blocks identified by their source.  Every read and
// write may fail.  initialize_slots and destroy_slots are replaced by their contracts (tloop.cpp proves destroy_slots).
#include "verif.h"
#include <gtl/phmap.hpp>
#include <gtl/phmap_dump.hpp>
using namespace gtl; using namespace gtl::priv;
struct V { int a,b; }; struct Hs { size_t operator()(const V& v) const { return (size_t)v.a; } }; struct Eq { bool operator()(const V& a,const V& b) const { return a.a==b.a; } };
using R=raw_hash_set<FlatHashSetPolicy<V>,Hs,Eq,std::allocator<V>>; static constexpr size_t W=Group::kWidth;
static char C1[8],S1[8],C2[8],S2[8],CN[8],SN[8];       // identities of the source's, the target's old and the target's new control bytes and slots
static int n_init, n_free_old, n_free_new; static size_t ncap; static bool got_c, got_s; static R* DST;
struct Item { size_t off,len; uint64_t v; int blk; }; static Item it[8]; static int nit; static size_t pos; static bool failed; static size_t cap1;
static bool dropped;
struct Ar {
  bool saveBinary(const void* p,size_t n){ vf_check(!failed,"nothing is written after a failure"); if(vf_bool()){ failed=true; return false; } vf_check(nit<8,"number of writes"); Item& x=it[nit++]; x.off=pos; x.len=n; pos+=n;
    if(p==C1){ x.blk=1; vf_check(n==cap1+1+W,"all control bytes are written, and nothing beyond them"); } else if(p==S1){ x.blk=2; vf_check(n==cap1*sizeof(V),"all slots are written, and nothing beyond them"); } else { x.blk=0; vf_check(n==8,"one word"); x.v=*(const uint64_t*)p; } return true; }
  bool loadBinary(void* p,size_t n){ vf_check(!failed,"nothing is read after a failure"); int k=-1; for(int i=0;i<8;++i) if(i<nit&&it[i].off==pos&&it[i].len==n) k=i; if(k<0||vf_bool()){ vf_check(k>=0||dropped,"reads match what was written"); failed=true; return false; } pos+=n;
    if(it[k].blk==1){ vf_check(p==CN&&n_init==1&&n==ncap+1+W,"the control bytes are read into the new table, inside its memory"); got_c=true; } else if(it[k].blk==2){ vf_check(p==SN&&n_init==1&&n==ncap*sizeof(V),"the slots are read into the new table, inside its memory"); got_s=true; } else { vf_check(p!=CN&&p!=SN,"a word is read as a word"); *(uint64_t*)p=it[k].v; } return true; } };
#ifdef VF_CBMC
extern "C" {
// contract of initialize_slots: fresh memory for c slots, all control bytes empty, growth budget CapacityToGrowth(c)-size
__attribute__((used)) void vf_contract_init(R* t,size_t c){ vf_check(t==DST&&IsValidCapacity(c)&&n_init==0,"the new table is set up once"); ++n_init; ncap=c; t->ctrl_=(ctrl_t*)CN; t->slots_=(R::slot_type*)SN; t->growth_left()=CapacityToGrowth(c)-t->size_; }
// contract of destroy_slots: releases the table if there is one and leaves the empty container
__attribute__((used)) void vf_contract_destroyt(R* t){ if(!t->capacity_) return; vf_check(t->ctrl_==(ctrl_t*)C2||t->ctrl_==(ctrl_t*)CN,"a table owned by the target is released"); if(t->ctrl_==(ctrl_t*)C2) ++n_free_old; else ++n_free_new; t->ctrl_=EmptyGroup<std::true_type>(); t->slots_=nullptr; t->size_=0; t->capacity_=0; t->growth_left()=0; }
__attribute__((used)) void vf_contract_dropd(R* t){ vf_check(false,"no conversion of a current dump"); }
}
#endif
static size_t pickcap(){ unsigned k=vf_u8(); vf_assume(k<=40); return ((size_t)1<<k)-1; }
static void fill(R& t,char* c,char* s){ size_t cap=pickcap(); t.capacity_=cap; if(cap){ t.ctrl_=(ctrl_t*)c; t.slots_=(R::slot_type*)s; t.size_=vf_u64(); vf_assume(t.size_<=CapacityToGrowth(cap)); t.growth_left()=vf_u64(); vf_assume(t.growth_left()<=CapacityToGrowth(cap)-t.size_); } }
static void drop(R& t){ t.capacity_=0; t.ctrl_=EmptyGroup<std::true_type>(); t.slots_=nullptr; t.size_=0; t.growth_left()=0; }
HARNESS H_dump(){ R a,b; DST=&b; fill(a,C1,S1); fill(b,C2,S2); cap1=a.capacity_; size_t sz=a.size_, gl=a.growth_left(), ocap=b.capacity_; nit=0; pos=0; failed=false; Ar ar; const R& ca=a;
  bool d=ca.phmap_dump(ar); vf_check(d==!failed,"dump reports success exactly when every write succeeded"); vf_check(a.size_==sz&&a.capacity_==cap1&&a.growth_left()==gl&&(!cap1||a.ctrl_==(ctrl_t*)C1),"dump leaves the container unchanged"); if(!d) vf_cover("dump failed");
  dropped=!d; size_t total=pos; pos=0; failed=false; bool l=b.phmap_load(ar); vf_check(l==!failed,"load reports success exactly when every read succeeded"); vf_check(n_free_old==(ocap?1:0),"the old contents are released exactly once");
  if(l&&d){ vf_check(pos==total,"load consumes exactly what dump wrote"); vf_check(b.size_==sz&&b.capacity_==cap1,"size and capacity are restored"); if(cap1) vf_check(n_init==1&&ncap==cap1&&b.ctrl_==(ctrl_t*)CN&&b.slots_==(R::slot_type*)SN,"the table has its own memory"); if(sz){ vf_check(got_c&&got_s,"control bytes and slots are restored"); vf_check(b.growth_left()==gl,"the growth budget is restored"); vf_cover("entries"); } else { if(cap1) vf_check(b.growth_left()==CapacityToGrowth(cap1)&&!got_c,"an empty table is as newly made"); vf_cover("empty"); } vf_check(n_free_new==0,"the new table is kept"); }
  if(!l){ vf_check(b.size_==0&&b.capacity_==0&&b.growth_left()==0&&n_free_new==n_init,"after a failed load the container is empty and nothing is leaked"); vf_cover("load failed"); }
  drop(a); drop(b); }
