// C15 C16: every modifying operation of gtl::vector, for all sizes, capacities, positions and arguments, with exceptions.
// Elements are never stored: each construction, copy, move and destruction of an element is recorded for two arbitrary cells
// (any addresses of the old buffer, the new buffer or the argument range) and for a temporary.  What holds for arbitrary cells
// holds for all.  The range primitives (destroy, fill, copy, move of a range) are replaced by their contracts, which VF_PRIM
// proves for the real loops; std::copy, std::copy_backward, std::fill, memcpy and memmove have their standard contracts.
#include "verif.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <utility>
#include <iterator>
struct E; struct It { const void* p; It(const E* q):p(q){} It(std::move_iterator<E*> q):p(q.base()){} };
extern "C" { bool gtl_verif_loop_vec_destroy(E*,E*) noexcept; bool gtl_verif_loop_vec_fill0(E*,E*) noexcept; bool gtl_verif_loop_vec_fill(E*,E*) noexcept; bool gtl_verif_loop_vec_copy(E*,It,It) noexcept; bool gtl_verif_loop_vec_copyn(E*,It,E*) noexcept; bool gtl_verif_loop_vec_undo(E*,E*) noexcept; }
#include <gtl/vector.hpp>
#ifndef VF_BIG
#define VF_BIG 36
#endif
#ifndef VF_REG
#define VF_REG 0    // 4*r0+r1: the regions of the two cells; 0: any
#endif
#ifndef VF_CASE
#define VF_CASE -1  // scenario of a split proof; -1: all
#endif
#ifndef VF_KIND
#define VF_KIND 0     // 0: nothrow move, throwing copy  1: throwing move and copy  2: move only, throwing  3: trivially copyable
#endif
#if VF_KIND==3
struct E { unsigned long long x[4]; };
#else
static void h_def(const void*); static void h_copy(const void*,const void*); static void h_move(const void*,const void*); static void h_acopy(const void*,const void*); static void h_amove(const void*,const void*); static void h_destroy(const void*);
struct E { char x[8]; E(){ h_def(this); }
#if VF_KIND!=2
  E(const E& o){ h_copy(this,&o); } E& operator=(const E& o){ h_acopy(this,&o); return *this; }
#endif
#if VF_KIND==0
  E(E&& o) noexcept { h_move(this,&o); } E& operator=(E&& o) noexcept { h_amove(this,&o); return *this; }
#else
  E(E&& o){ h_move(this,&o); } E& operator=(E&& o){ h_amove(this,&o); return *this; }
#endif
  ~E(){ h_destroy(this); } };
#endif
static constexpr size_t SZ=sizeof(E), REG=(size_t)1<<45, OLD=REG, NEW=2*REG, ARG=3*REG, BIG=(size_t)1<<VF_BIG, DEF=~(size_t)0; static constexpr bool TRIV=VF_KIND==3, TCOPY=!TRIV, TMOVE=VF_KIND==1||VF_KIND==2;
using V=gtl::vector<E>; enum St { RAW, LIVE, MOVED };
struct Cell { size_t off; int st; size_t tok; bool known; };
static constexpr int NC=2; static Cell c[NC], tmpc; static bool alive0, alive1; static size_t cap0, size0, cap1, argn; static char MEM[8];
static E* at(size_t off){ return (E*)(MEM+off); }
static size_t off(const void* p){ return (size_t)p-(size_t)MEM; }
static bool inmem(const void* p){ return off(p)<((size_t)1<<48); }
static Cell* cell(const void* p){ if(!inmem(p)) return &tmpc; size_t o=off(p); for(int i=0;i<NC;++i) if(c[i].off==o) return &c[i]; return nullptr; }
static bool inbuf(size_t o,size_t n){ if(o>=OLD&&o<NEW) return alive0&&(o-OLD)%SZ==0&&(o-OLD)/SZ+n<=cap0; if(o>=NEW&&o<ARG) return alive1&&(o-NEW)%SZ==0&&(o-NEW)/SZ+n<=cap1; return false; }
static bool readable(size_t o,size_t n){ return inbuf(o,n)||(o>=ARG&&(o-ARG)%SZ==0&&(o-ARG)/SZ+n<=argn); }
static void bounds(const void* p){ if(inmem(p)) vf_check(inbuf(off(p),1),"elements are written inside the allocation"); }
static void get(const void* s,size_t& tok,bool& known){ if(inmem(s)) vf_check(readable(off(s),1),"elements are read inside a live range"); Cell* x=cell(s); if(x){ vf_check(x->st==LIVE,"only live values are read"); tok=x->tok; known=x->known; } else { tok=0; known=false; } }
static void put(const void* d,size_t tok,bool known,bool assign){ bounds(d); if(Cell* x=cell(d)){ if(!TRIV){ if(assign) vf_check(x->st!=RAW,"only live elements are assigned to"); else vf_check(x->st==RAW,"elements are constructed in free memory only"); } x->st=LIVE; x->tok=tok; x->known=known; } }
static void maythrow(bool can){ if(can&&vf_bool()) vf_throw(); }
static void h_def(const void* d){ maythrow(!TRIV); put(d,DEF,true,false); }
static void h_copy(const void* d,const void* s){ size_t t; bool k; get(s,t,k); maythrow(TCOPY); put(d,t,k,false); }
static void h_acopy(const void* d,const void* s){ size_t t; bool k; get(s,t,k); maythrow(TCOPY); put(d,t,k,true); }
static void moved(const void* s){ if(Cell* x=cell(s)) x->st=MOVED; }
static void h_move(const void* d,const void* s){ size_t t; bool k; get(s,t,k); maythrow(TMOVE); put(d,t,k,false); moved(s); }
static void h_amove(const void* d,const void* s){ size_t t; bool k; get(s,t,k); maythrow(TMOVE); if(d!=s) moved(s); put(d,t,k,true); }
static void h_destroy(const void* p){ bounds(p); if(Cell* x=cell(p)){ vf_check(x->st!=RAW,"an element is destroyed exactly once"); x->st=RAW; } }
static bool within(size_t o,size_t b,size_t n){ return o>=b&&(o-b)/SZ<n; }
#ifdef VF_CBMC
// ---- contracts of the range primitives
static void r_xfer(void* dst,const void* first,size_t n,bool move,bool assign,bool bits){ if(n==0) return; size_t d=off(dst), f=off(first); vf_check(inbuf(d,n),"a range is written inside the allocation"); vf_check(readable(f,n),"a range is read inside a live range");
  bool can=!bits&&(move? TMOVE:TCOPY); if(can&&vf_bool()){ for(int i=0;i<NC;++i){ if(assign&&within(c[i].off,d,n)){ vf_check(c[i].st!=RAW,"only live elements are assigned to"); c[i].known=false; c[i].st=vf_bool()?LIVE:MOVED; } if(!assign&&within(c[i].off,d,n)) vf_check(c[i].st==RAW,"elements are constructed in free memory only"); if(move&&within(c[i].off,f,n)&&vf_bool()) c[i].st=MOVED; } vf_throw(); }
  Cell o[NC]={c[0],c[1]};
  for(int i=0;i<NC;++i){ if(within(o[i].off,f,n)) vf_check(o[i].st==LIVE,"only live values are copied or moved");
    if(within(o[i].off,d,n)){ if(!TRIV){ if(assign) vf_check(o[i].st!=RAW,"only live elements are assigned to"); else vf_check(o[i].st==RAW,"elements are constructed in free memory only"); } size_t so=f+(o[i].off-d)/SZ*SZ; c[i].st=LIVE; c[i].known=false; for(int j=0;j<NC;++j) if(o[j].off==so){ c[i].known=o[j].known; c[i].tok=o[j].tok; } }
    else if(move&&!bits&&within(o[i].off,f,n)) c[i].st=MOVED; } }
static void r_fill(void* dst,size_t n,size_t tok,bool known,bool assign){ if(n==0) return; size_t d=off(dst); vf_check(inbuf(d,n),"a range is written inside the allocation");
  if(TCOPY&&vf_bool()){ for(int i=0;i<NC;++i) if(within(c[i].off,d,n)){ if(assign){ vf_check(c[i].st!=RAW,"only live elements are assigned to"); c[i].known=false; c[i].st=LIVE; } else vf_check(c[i].st==RAW,"elements are constructed in free memory only"); } vf_throw(); }
  for(int i=0;i<NC;++i) if(within(c[i].off,d,n)){ if(!TRIV){ if(assign) vf_check(c[i].st!=RAW,"only live elements are assigned to"); else vf_check(c[i].st==RAW,"elements are constructed in free memory only"); } c[i].st=LIVE; c[i].tok=tok; c[i].known=known; } }
static size_t cnt(const void* a,const void* b){ vf_check(off(a)<=off(b)&&(off(b)-off(a))%SZ==0,"a range goes from its start to its end"); return (off(b)-off(a))/SZ; }
extern "C" {
__attribute__((used)) void vf_contract_destroy(E* f,E* l){ size_t n=cnt(f,l); if(n) vf_check(inbuf(off(f),n),"elements of the allocation are destroyed"); for(int i=0;i<NC;++i) if(within(c[i].off,off(f),n)){ vf_check(c[i].st!=RAW,"an element is destroyed exactly once"); c[i].st=RAW; } }
__attribute__((used)) void vf_contract_fill0(E* d,size_t n){ r_fill(d,n,DEF,true,false); }
__attribute__((used)) void vf_contract_fill(E* d,size_t n,const E& v){ size_t t; bool k; if(n){ get(&v,t,k); r_fill(d,n,t,k,false); } }
__attribute__((used)) void vf_contract_ucopy(E* d,const E* f,const E* l){ r_xfer(d,f,cnt(f,l),false,false,false); }
__attribute__((used)) void vf_contract_umove(E* d,E* f,E* l){ r_xfer(d,f,cnt(f,l),true,false,false); }
__attribute__((used)) E* vf_contract_copy(const E* f,const E* l,E* d){ size_t n=cnt(f,l); vf_check(!(off(d)>off(f)&&off(d)<off(l)),"std::copy: the target does not start inside the source"); r_xfer(d,f,n,false,true,false); return d+n; }
__attribute__((used)) E* vf_contract_smove(E* f,E* l,E* d){ size_t n=cnt(f,l); vf_check(!(off(d)>off(f)&&off(d)<off(l)),"std::copy: the target does not start inside the source"); r_xfer(d,f,n,true,true,false); return d+n; }
__attribute__((used)) E* vf_contract_bmove(E* f,E* l,E* d){ size_t n=cnt(f,l); vf_check(!(off(d)>off(f)&&off(d)<off(l)),"std::copy_backward: the target does not end inside the source"); r_xfer(d-n,f,n,true,true,false); return d-n; }
__attribute__((used)) const E* vf_contract_copyn(E* d,const E* f,size_t n){ r_xfer(d,f,n,false,true,TRIV); return f+n; }
__attribute__((used)) void vf_contract_sfill(E* f,E* l,const E& v){ size_t n=cnt(f,l); size_t t; bool k; if(n){ get(&v,t,k); r_fill(f,n,t,k,true); } }
__attribute__((used)) E* vf_contract_alloc(void*,size_t n){ vf_check(n<=(~(size_t)0/2)/SZ,"the byte size of an allocation does not overflow"); maythrow(true); vf_check(!alive1,"one allocation"); vf_assume(n<REG/SZ); alive1=true; cap1=n; return at(NEW); }
__attribute__((used)) void vf_contract_dealloc(void*,E* p,size_t n){ size_t o=off(p); bool a=o==OLD&&alive0, b=o==NEW&&alive1; vf_check(a||b,"memory is released once, by its start"); vf_check(n==(a?cap0:cap1),"memory is released with its size"); if(a) alive0=false; if(b) alive1=false; if(!TRIV) for(int i=0;i<NC;++i) if(c[i].off>=o&&c[i].off<o+REG) vf_check(c[i].st==RAW,"no element is left in released memory"); }
__attribute__((used)) size_t vf_contract_inscap(V* v,size_t n){ size_t r=vf_u64(); vf_assume(r>=v->size()+n&&r<=8*BIG+64); return r; }
// make_window: [pos,e) moves up by n, leaving n free cells; on an exception the elements from some point on are gone and the rest is valid
__attribute__((used)) void vf_contract_window(V* v,E* pos,size_t n){ size_t b=off(v->impl_.b_), e=off(v->impl_.e_), z=off(v->impl_.z_), p=off(pos); vf_check(n>0&&p>=b&&p<e&&(p-b)%SZ==0&&n<=(z-e)/SZ,"a window is opened at an element and there is room for it");
  if(TMOVE&&vf_bool()){ size_t e2=vf_u64(); vf_assume(e2>=p&&e2<=e&&(e2-b)%SZ==0); for(int i=0;i<NC;++i) if(c[i].off>=p&&c[i].off<z){ if(c[i].off<e2){ c[i].known=false; c[i].st=vf_bool()?LIVE:MOVED; } else c[i].st=RAW; } v->impl_.e_=at(e2); vf_throw(); }
  Cell o[NC]={c[0],c[1]}; for(int i=0;i<NC;++i) if(o[i].off>=p&&o[i].off<e+n*SZ){ if(o[i].off<p+n*SZ){ if(!TRIV) c[i].st=RAW; else c[i].known=false; } else { c[i].st=LIVE; c[i].known=false; for(int j=0;j<NC;++j) if(o[j].off==b+((o[i].off-b)/SZ-n)*SZ){ c[i].known=o[j].known; c[i].tok=o[j].tok; } } } v->impl_.e_=at(e+n*SZ); }
// wrap_frame: the elements move to the new memory around n cells at idx; on an exception the new memory is as before
__attribute__((used)) void vf_contract_frame(V* v,E* ledge,size_t idx,size_t n){ size_t b=off(v->impl_.b_), d=off(ledge); size_t sz=v->impl_.b_? (off(v->impl_.e_)-b)/SZ:0; vf_check(n>0&&idx<=sz&&d==NEW&&alive1&&sz+n<=cap1,"the new memory has room for the elements");
  for(int i=0;i<NC;++i) if(!TRIV&&within(c[i].off,d,sz+n)&&!within(c[i].off,d+idx*SZ,n)) vf_check(c[i].st==RAW,"elements are constructed in free memory only");
  if((VF_KIND==1||VF_KIND==2)&&vf_bool()){ if(VF_KIND==2) for(int i=0;i<NC;++i) if(sz&&within(c[i].off,b,sz)&&vf_bool()) c[i].st=MOVED; vf_throw(); }
  Cell o[NC]={c[0],c[1]}; for(int i=0;i<NC;++i){ if(within(o[i].off,d,sz+n)&&!within(o[i].off,d+idx*SZ,n)){ size_t kk=(o[i].off-d)/SZ, so=b+(kk<idx? kk:kk-n)*SZ; c[i].st=LIVE; c[i].known=false; for(int j=0;j<NC;++j) if(o[j].off==so){ c[i].known=o[j].known; c[i].tok=o[j].tok; } } else if(!TRIV&&sz&&within(o[i].off,b,sz)){ vf_check(o[i].st==LIVE,"only live values are moved"); c[i].st=RAW; } } }
#if VF_KIND==3
static void raw(void* d,const void* s,size_t n){ __builtin_memcpy(d,s,n); }
__attribute__((used)) void vf_contract_memcpy(void* d,const void* s,size_t n){ if(!inmem(d)&&!inmem(s)){ raw(d,s,n); return; } vf_check(n%SZ==0,"whole elements are copied"); size_t k=n/SZ; if(k==0) return; if(!inmem(d)){ vf_check(k==1,"one element is copied to a temporary"); get(s,tmpc.tok,tmpc.known); tmpc.st=LIVE; return; } if(!inmem(s)){ vf_check(k==1,"one element is copied from a temporary"); size_t t; bool kn; get(s,t,kn); put(d,t,kn,false); return; }
  vf_check(off(d)+n<=off(s)||off(s)+n<=off(d),"memcpy: the ranges do not overlap"); r_xfer(d,s,k,false,false,true); }
__attribute__((used)) void vf_contract_memmove(void* d,const void* s,size_t n){ vf_check(n%SZ==0&&inmem(d)&&inmem(s),"whole elements are moved"); r_xfer(d,s,n/SZ,false,false,true); }
__attribute__((used)) void vf_contract_memset(void* d,unsigned char v,size_t n){ if(!inmem(d)){ __builtin_memset(d,v,n); if(n==SZ){ tmpc.st=LIVE; tmpc.tok=DEF; tmpc.known=true; } return; } vf_check(n%SZ==0&&v==0,"whole elements are zeroed"); r_fill(d,n/SZ,DEF,true,false); }
#endif
}
#define BEG alignas(V) static char m1[sizeof(V)]; V& v=*(V*)m1;
// ---- the state before an operation, and the checks after it
static void cells(){ for(int i=0;i<NC;++i){ unsigned r=vf_u8(); vf_assume(r>=1&&r<=3); if(VF_REG) r= i? VF_REG%4:VF_REG/4; size_t k=vf_u64(); vf_assume(k<REG/SZ); c[i].off=r*REG+k*SZ; c[i].tok=c[i].off; c[i].known=true; c[i].st= r==1? (k<size0? LIVE:RAW) : r==2? RAW : (k<argn? LIVE:RAW); } vf_assume(c[0].off<c[1].off); /* by symmetry */ tmpc.st=RAW; tmpc.off=0; }
static void mk(V& v,bool nonempty=false){ cap0=vf_upto(BIG); size0=vf_upto(BIG); argn=vf_upto(BIG); vf_assume(size0<=cap0); if(nonempty) vf_assume(size0>0); alive0=cap0>0; alive1=false; if(cap0){ v.impl_.b_=at(OLD); v.impl_.e_=at(OLD)+size0; v.impl_.z_=at(OLD)+cap0; } else v.impl_.b_=v.impl_.e_=v.impl_.z_=nullptr; cells(); }
static bool shape(V& v,size_t& base,size_t& n){ E *b=v.impl_.b_,*e=v.impl_.e_,*z=v.impl_.z_; if(b==nullptr){ vf_check(e==nullptr&&z==nullptr,"a vector without memory is empty"); vf_check(!alive0&&!alive1,"no memory is leaked"); n=0; base=0; return false; } base=off(b); vf_check((base==OLD&&alive0&&!alive1&&off(z)==OLD+cap0*SZ)||(base==NEW&&alive1&&!alive0&&off(z)==NEW+cap1*SZ),"the vector owns exactly its memory"); vf_check(off(e)>=base&&(off(e)-base)%SZ==0&&off(e)<=off(z),"the size does not exceed the capacity"); n=(off(e)-base)/SZ; return true; }
template<class F> static void fin(V& v,size_t want,F expect,bool argmoved=false,bool valid=false){ size_t base,n; shape(v,base,n); vf_check(n==want,"the size is that of the sequence"); vf_check(v.size()==want&&v.empty()==(want==0),"size and emptiness are reported"); if(!TRIV) vf_check(tmpc.st==RAW,"temporaries are destroyed");
  for(int i=0;i<NC;++i){ if(base&&within(c[i].off,base,n)){ size_t k=(c[i].off-base)/SZ; vf_check(valid? c[i].st!=RAW:c[i].st==LIVE,"every element is live"); if(c[i].known){ vf_check(c[i].tok==expect(k),"every position holds the value of the sequence"); vf_cover("content"); } } else if(c[i].off<ARG){ if(!TRIV) vf_check(c[i].st==RAW,"nothing outside the vector is left alive"); } else if(!argmoved) vf_check(c[i].st==((c[i].off-ARG)/SZ<argn? LIVE:RAW)&&c[i].tok==c[i].off,"arguments are untouched"); } vf_cover("end"); }
static void fin_exc(V& v){ size_t base,n; shape(v,base,n); if(!TRIV) vf_check(tmpc.st==RAW,"temporaries are destroyed"); for(int i=0;i<NC;++i){ if(base&&within(c[i].off,base,n)) vf_check(c[i].st!=RAW,"after an exception every element of the vector is valid"); else if(c[i].off<ARG){ if(!TRIV) vf_check(c[i].st==RAW,"after an exception nothing is leaked"); } else vf_check((c[i].st!=RAW)==((c[i].off-ARG)/SZ<argn),"arguments stay valid"); } vf_cover("exception"); }
static size_t old(size_t k){ return OLD+k*SZ; } static size_t arg(size_t k){ return ARG+k*SZ; }
static const E& ext(){ vf_assume(argn>=1); return *at(ARG); }
static const E& ref(size_t& tok){ if(vf_bool()){ tok=arg(0); return ext(); } size_t k=vf_below(size0); tok=old(k); return *at(old(k)); } // an argument, possibly an element of the vector itself
HARNESS H_v_window(){ BEG mk(v,true); size_t p=vf_below(size0), n=vf_upto(cap0-size0); vf_assume(n>0); if(VF_CASE==0) vf_assume(size0-p<=n); if(VF_CASE==1) vf_assume(size0-p>n); try { v.make_window(at(old(p)),n); vf_check(off(v.impl_.b_)==OLD&&off(v.impl_.e_)==old(size0+n)&&off(v.impl_.z_)==old(cap0)&&alive0&&!alive1,"the vector keeps its memory and grows by n");
  for(int i=0;i<NC;++i) if(c[i].off<NEW){ size_t k=(c[i].off-OLD)/SZ; if(k<p||(k>=p+n&&k<size0+n)){ vf_check(c[i].st==LIVE,"every element outside the window is live"); if(c[i].known){ vf_check(c[i].tok==(k<p? old(k):old(k-n)),"elements after the window moved up by n, others stay"); vf_cover("content"); } } else if(!TRIV) vf_check(c[i].st==RAW,"the window is free"); } vf_cover("end"); }
  catch(...){ vf_check(off(v.impl_.b_)==OLD&&off(v.impl_.z_)==old(cap0)&&alive0&&!alive1,"the vector keeps its memory"); size_t e2=off(v.impl_.e_); vf_check(e2>=old(p)&&e2<=old(size0)&&(e2-OLD)%SZ==0,"the elements before the window remain"); for(int i=0;i<NC;++i) if(c[i].off<NEW){ if(c[i].off<e2){ vf_check(c[i].st!=RAW,"after an exception every element of the vector is valid"); if(c[i].off<old(p)) vf_check(c[i].st==LIVE&&c[i].tok==c[i].off,"elements before the window are untouched"); } else vf_check(c[i].st==RAW,"after an exception nothing is leaked"); } vf_cover("exception"); } }
HARNESS H_v_inscap(){ BEG mk(v); size_t n=vf_upto(BIG); size_t r=v.computeInsertCapacity(n); vf_check(r>=size0+n&&r<=8*BIG+64,"room for the inserted elements, without overflow"); vf_cover("end"); }
HARNESS H_v_frame(){ BEG mk(v); size_t idx=vf_upto(size0), n=vf_upto(BIG); vf_assume(n>0); cap1=vf_upto(4*BIG); vf_assume(cap1>=size0+n); alive1=true; for(int i=0;i<NC;++i) if(within(c[i].off,NEW+idx*SZ,n)) c[i].st=LIVE; try { v.wrap_frame(at(NEW),idx,n); vf_check(alive1&&(alive0||!cap0)&&(!cap0||(off(v.impl_.b_)==OLD&&off(v.impl_.e_)==old(size0))),"only the elements are moved");
  for(int i=0;i<NC;++i){ if(c[i].off<NEW){ if(!TRIV) vf_check(c[i].st==RAW,"the old memory is left free"); } else if(c[i].off<ARG){ size_t k=(c[i].off-NEW)/SZ; if(k<idx||(k>=idx+n&&k<size0+n)){ vf_check(c[i].st==LIVE,"every element is live in the new memory"); if(c[i].known){ vf_check(c[i].tok==(k<idx? old(k):old(k-n)),"elements keep their order around the inserted ones"); vf_cover("content"); } } else if(k>=idx&&k<idx+n) vf_check(c[i].st==LIVE&&c[i].tok==c[i].off,"the inserted elements are untouched"); else if(!TRIV) vf_check(c[i].st==RAW,"the rest of the new memory is free"); } } vf_cover("end"); }
  catch(...){ vf_check(VF_KIND==1||VF_KIND==2,"moving without exceptions does not fail"); for(int i=0;i<NC;++i){ if(c[i].off<NEW){ bool in=c[i].off<old(size0); vf_check((c[i].st!=RAW)==in,"after an exception the old elements are valid"); if(in&&VF_KIND==1) vf_check(c[i].st==LIVE&&c[i].tok==c[i].off,"after a failed copy the old elements are untouched"); } else if(c[i].off<ARG){ bool ins=within(c[i].off,NEW+idx*SZ,n); vf_check(c[i].st==(ins?LIVE:RAW),"after an exception nothing new is left but the inserted elements"); } } vf_cover("exception"); } }
static void scen(size_t p,size_t n){ bool fresh=size0+n>cap0, end=p==size0; if(VF_CASE==0) vf_assume(fresh); if(VF_CASE==1) vf_assume(!fresh&&end); if(VF_CASE==2) vf_assume(!fresh&&!end); }
#define OP(nm,pre,op,...) HARNESS H_v_##nm(){ BEG pre; try { op; __VA_ARGS__; } catch(...) { fin_exc(v); } }
#if VF_KIND!=2
OP(push, mk(v); size_t t; const E& x=ref(t), v.push_back(x), fin(v,size0+1,[&](size_t k){ return k<size0? old(k):t; }))
OP(eback, mk(v); size_t t; const E& x=ref(t), E& r=v.emplace_back(x), vf_check(&r==v.impl_.e_-1,"emplace_back returns the new element"); fin(v,size0+1,[&](size_t k){ return k<size0? old(k):t; }))
OP(resizev, mk(v); size_t t; const E& x=ref(t); size_t n=vf_upto(BIG), v.resize(n,x), fin(v,n,[&](size_t k){ return k<size0? old(k):t; }))
OP(ins1, mk(v); size_t t; const E& x=ref(t); size_t p=vf_upto(size0), E* r=v.insert(v.impl_.b_+p,x), vf_check(r==v.impl_.b_+p,"insert returns the position"); fin(v,size0+1,[&](size_t k){ return k<p? old(k):k==p? t:old(k-1); }))
OP(insn, mk(v); size_t t; const E& x=ref(t); size_t p=vf_upto(size0); size_t n=vf_upto(BIG); scen(p,n), E* r=v.insert(v.impl_.b_+p,n,x), vf_check(r==v.impl_.b_+p,"insert returns the position"); fin(v,size0+n,[&](size_t k){ return k<p? old(k):k<p+n? t:old(k-n); }))
OP(insr, mk(v); size_t p=vf_upto(size0); size_t n=vf_upto(argn); scen(p,n), E* r=v.insert(v.impl_.b_+p,(const E*)at(ARG),(const E*)at(ARG)+n), vf_check(r==v.impl_.b_+p,"insert returns the position"); fin(v,size0+n,[&](size_t k){ return k<p? old(k):k<p+n? arg(k-p):old(k-n); }))
OP(emplc, mk(v); size_t t; const E& x=ref(t); size_t p=vf_upto(size0), E* r=v.emplace(v.impl_.b_+p,x), vf_check(r==v.impl_.b_+p,"emplace returns the position"); fin(v,size0+1,[&](size_t k){ return k<p? old(k):k==p? t:old(k-1); }))
OP(assignn, mk(v); size_t t; const E& x=ref(t); size_t n=vf_upto(BIG), v.assign(n,x), fin(v,n,[&](size_t k){ return t; }))
OP(assignr, mk(v); size_t n=vf_upto(argn), v.assign((const E*)at(ARG),(const E*)at(ARG)+n), fin(v,n,[&](size_t k){ return arg(k); }))
#define OTHER alignas(V) static char m2[sizeof(V)]; V& w=*(V*)m2; w.impl_.b_=at(ARG); w.impl_.e_=w.impl_.z_=at(ARG)+argn;
OP(copyasg, mk(v); OTHER, v=w, fin(v,argn,[&](size_t k){ return arg(k); }))
OP(selfasg, mk(v), v=*&v, fin(v,size0,[&](size_t k){ return old(k); }))
#define CT(nm,pre,op,...) HARNESS H_v_##nm(){ BEG cap0=size0=0; alive0=alive1=false; argn=vf_upto(BIG); cells(); bool ok=false; pre; try { op; ok=true; } catch(...) { vf_check(!alive0&&!alive1,"no memory is leaked by a failed construction"); if(!TRIV) for(int i=0;i<NC;++i) if(c[i].off<ARG) vf_check(c[i].st==RAW,"no element is leaked by a failed construction"); vf_cover("exception"); } if(ok){ __VA_ARGS__; } }
CT(copyctor, OTHER, new(m1) V(w), fin(v,argn,[&](size_t k){ return arg(k); }))
CT(ctorn, size_t n=vf_upto(BIG), new(m1) V(n), fin(v,n,[&](size_t k){ return DEF; }))
CT(ctornv, size_t n=vf_upto(BIG), new(m1) V(n,ext()), fin(v,n,[&](size_t k){ return arg(0); }))
CT(ctorr, size_t n=vf_upto(argn), new(m1) V((const E*)at(ARG),(const E*)at(ARG)+n), fin(v,n,[&](size_t k){ return arg(k); }))
#endif
OP(pushm, mk(v); ext(), v.push_back(std::move(*at(ARG))), fin(v,size0+1,[&](size_t k){ return k<size0? old(k):arg(0); },true))
OP(insm, mk(v); ext(); size_t p=vf_upto(size0), E* r=v.insert(v.impl_.b_+p,std::move(*at(ARG))), vf_check(r==v.impl_.b_+p,"insert returns the position"); fin(v,size0+1,[&](size_t k){ return k<p? old(k):k==p? arg(0):old(k-1); },true))
OP(eback0, mk(v), v.emplace_back(), fin(v,size0+1,[&](size_t k){ return k<size0? old(k):DEF; }))
OP(empl0, mk(v); size_t p=vf_upto(size0), E* r=v.emplace(v.impl_.b_+p), vf_check(r==v.impl_.b_+p,"emplace returns the position"); fin(v,size0+1,[&](size_t k){ return k<p? old(k):k==p? DEF:old(k-1); }))
OP(pop, mk(v,true), v.pop_back(), fin(v,size0-1,old))
OP(reserve, mk(v); size_t n=vf_upto(BIG), v.reserve(n), vf_check(v.capacity()>=n,"reserve provides the capacity"); fin(v,size0,old))
OP(reservebig, mk(v); size_t n=vf_u64(); vf_assume(n>=~(size_t)0/2/SZ), v.reserve(n), vf_check(false,"a size that cannot be addressed is refused"))
OP(shrink, mk(v), v.shrink_to_fit(), fin(v,size0,old,false,VF_KIND==2)) // a throwing move of a move-only type leaves valid, unspecified elements
OP(resize, mk(v); size_t n=vf_upto(BIG), v.resize(n), fin(v,n,[&](size_t k){ return k<size0? old(k):DEF; }))
OP(clear, mk(v), v.clear(), fin(v,0,old))
OP(erase1, mk(v,true); size_t p=vf_below(size0), E* r=v.erase(v.impl_.b_+p), vf_check(off(r)==old(p)&&off(v.impl_.b_)==OLD,"erase returns the position"); fin(v,size0-1,[&](size_t k){ return k<p? old(k):old(k+1); }))
OP(erase, mk(v); size_t p=vf_upto(size0); size_t n=vf_upto(size0-p), E* r=v.erase(v.impl_.b_+p,v.impl_.b_+p+n), vf_check(r==v.impl_.b_+p,"erase returns the position"); fin(v,size0-n,[&](size_t k){ return k<p? old(k):old(k+n); }))
HARNESS H_v_dtor(){ BEG mk(v); v.~V(); vf_check(!alive0&&!alive1,"the memory is released"); if(!TRIV) for(int i=0;i<NC;++i) if(c[i].off<ARG) vf_check(c[i].st==RAW,"every element is destroyed"); vf_cover("end"); }
static bool owns(V& v,size_t b,size_t s,size_t z){ return v.impl_.b_==at(b)&&v.impl_.e_==at(b)+s&&v.impl_.z_==at(b)+z; }
HARNESS H_v_swap(){ BEG mk(v); vf_assume(cap0>0); alignas(V) static char m2[sizeof(V)]; V& w=*(V*)m2; size_t s2=vf_upto(argn); w.impl_.b_=at(ARG); w.impl_.e_=at(ARG)+s2; w.impl_.z_=at(ARG)+argn; v.swap(w); vf_check(owns(w,OLD,size0,cap0)&&owns(v,ARG,s2,argn),"swap exchanges the contents"); gtl::swap(v,w); vf_check(owns(v,OLD,size0,cap0)&&owns(w,ARG,s2,argn),"swap exchanges the contents back"); vf_cover("end"); }
HARNESS H_v_movector(){ BEG mk(v); vf_assume(cap0>0); alignas(V) static char m2[sizeof(V)]; V& w=*new(m2) V(std::move(v)); vf_check(owns(w,OLD,size0,cap0)&&v.impl_.b_==nullptr&&v.size()==0&&v.capacity()==0,"a move takes the whole contents"); vf_cover("end"); }
HARNESS H_v_moveasg(){ BEG mk(v); vf_assume(cap0>0); alignas(V) static char m2[sizeof(V)]; V& w=*(V*)m2; size_t s2=vf_upto(argn); w.impl_.b_=at(ARG); w.impl_.e_=at(ARG)+s2; w.impl_.z_=at(ARG)+argn; w=std::move(v); vf_check(owns(w,OLD,size0,cap0),"a move takes the whole contents"); vf_check(alive0,"the contents are not released"); vf_cover("end"); }
// ---- the range primitives themselves, by loop invariants: k elements are done, the rest is as before
#ifdef VF_PRIM
static Cell ini[NC]; static size_t g_d, g_f, g_n, g_tok; static bool g_known, g_move, g_assign;
static bool same(const Cell& x,const Cell& y){ return x.st==y.st&&(x.st==RAW||(x.known==y.known&&(!x.known||x.tok==y.tok))); }
static void after(int i,size_t k,Cell& r,bool fill){ r=ini[i]; if(within(r.off,g_d,k)){ r.st=LIVE; r.known=false; if(fill){ r.known=g_known; r.tok=g_tok; } else for(int j=0;j<NC;++j) if(ini[j].off==g_f+(r.off-g_d)/SZ*SZ){ r.known=ini[j].known; r.tok=ini[j].tok; } } else if(!fill&&g_move&&within(r.off,g_f,k)) r.st=MOVED; }
static bool done(size_t k,bool fill){ for(int i=0;i<NC;++i){ Cell r; after(i,k,r,fill); if(!same(r,c[i])) return false; } return true; }
static bool at_k(const void* b,size_t base,size_t& k){ size_t o=off(b); k=(o-base)/SZ; return o>=base&&(o-base)%SZ==0&&k<g_n; }
static void hv(){ for(int i=0;i<NC;++i){ c[i].st=vf_u8(); c[i].tok=vf_u64(); c[i].known=vf_bool(); } }
#define INV extern "C" __attribute__((used))
INV bool gtl_verif_loop_vec_fill0(E* b,E* e) noexcept { size_t k; return at_k(b,g_d,k)&&off(e)==g_d+g_n*SZ&&done(k,true); }
INV bool gtl_verif_loop_vec_fill(E* b,E* e) noexcept { size_t k; return at_k(b,g_d,k)&&off(e)==g_d+g_n*SZ&&done(k,true); }
INV bool gtl_verif_loop_vec_copy(E* b,It f,It l) noexcept { size_t k; return at_k(b,g_d,k)&&off(f.p)==g_f+k*SZ&&off(l.p)==g_f+g_n*SZ&&done(k,false); }
INV bool gtl_verif_loop_vec_copyn(E* b,It f,E* e) noexcept { size_t k; return at_k(b,g_d,k)&&off(f.p)==g_f+k*SZ&&off(e)==g_d+g_n*SZ&&done(k,false); }
static bool gone(size_t lo,size_t hi){ for(int i=0;i<NC;++i){ if(c[i].off>=lo&&c[i].off<hi){ if(c[i].st!=RAW) return false; } else if(within(c[i].off,g_d,(hi-g_d)/SZ)? c[i].st==RAW : !same(ini[i],c[i])) return false; } return true; }
INV bool gtl_verif_loop_vec_destroy(E* b,E* e) noexcept { size_t k; if(!at_k(b,g_d,k)||off(e)!=g_d+g_n*SZ) return false; for(int i=0;i<NC;++i){ Cell r=ini[i]; if(within(r.off,g_d,k)) r.st=RAW; if(!same(r,c[i])) return false; } return true; }
// undoing a partial fill, from the last constructed element down: elements 0..k are left
INV bool gtl_verif_loop_vec_undo(E* b,E* d) noexcept { size_t k; if(!at_k(b,g_d,k)||off(d)!=g_d) return false; for(int i=0;i<NC;++i){ bool w=within(c[i].off,g_d,k+1); if(w? c[i].st==RAW : !same(ini[i],c[i])) return false; } return true; }
INV void gtl_verif_havoc_vec_fill0(E*,E*) noexcept { hv(); } INV void gtl_verif_havoc_vec_fill(E*,E*) noexcept { hv(); } INV void gtl_verif_havoc_vec_copy(E*,It,It) noexcept { hv(); } INV void gtl_verif_havoc_vec_copyn(E*,It,E*) noexcept { hv(); } INV void gtl_verif_havoc_vec_destroy(E*,E*) noexcept { hv(); } INV void gtl_verif_havoc_vec_undo(E*,E*) noexcept { hv(); }
static void prim(int dst,bool src){ BEG mk(v); alive1=vf_bool(); cap1=vf_upto(BIG); g_n=vf_upto(BIG); g_d=(vf_bool()? OLD:NEW)+vf_upto(BIG)*SZ; if(g_n) vf_assume(inbuf(g_d,g_n)); if(src){ g_f=(vf_u8()%3+1)*REG+vf_upto(BIG)*SZ; if(g_n) vf_assume(readable(g_f,g_n)&&(g_f+g_n*SZ<=g_d||g_d+g_n*SZ<=g_f)); }
  for(int i=0;i<NC;++i){ c[i].st=vf_u8()%3; c[i].known=vf_bool(); c[i].tok=vf_u64(); if(within(c[i].off,g_d,g_n)){ if(dst==RAW) c[i].st=RAW; else vf_assume(c[i].st!=RAW); } if(src&&within(c[i].off,g_f,g_n)) c[i].st=LIVE; ini[i]=c[i]; } }
static void ok(size_t k,bool fill){ vf_check(done(k,fill),"exactly the range has the specified elements"); vf_check(tmpc.st==RAW,"no temporary is left"); vf_cover("end"); }
// on an exception: what was constructed is destroyed again; sources may have been moved from; assigned elements are valid
static void undone(){ for(int i=0;i<NC;++i){ if(g_assign&&within(c[i].off,g_d,g_n)) vf_check(c[i].st!=RAW,"assigned elements stay valid"); else if(g_move&&within(c[i].off,g_f,g_n)) vf_check(c[i].st!=RAW,"sources stay valid"); else vf_check(same(ini[i],c[i]),"after an exception memory is as before"); } vf_cover("exception"); }
HARNESS H_vp_destroy(){ prim(LIVE,false); V::S_destroy_range(at(g_d),at(g_d)+g_n); for(int i=0;i<NC;++i){ Cell r=ini[i]; if(!TRIV&&within(r.off,g_d,g_n)) r.st=RAW; vf_check(same(r,c[i]),"exactly the range is destroyed"); } vf_cover("end"); }
HARNESS H_vp_fill0(){ prim(RAW,false); g_tok=DEF; g_known=true; try { V::S_uninitialized_fill_n(at(g_d),g_n); ok(g_n,true); } catch(...) { undone(); } }
#if VF_KIND!=2
HARNESS H_vp_fill(){ prim(RAW,false); vf_assume(argn>=1); for(int i=0;i<NC;++i) if(c[i].off==ARG){ c[i].st=ini[i].st=LIVE; } g_known=false; for(int i=0;i<NC;++i) if(c[i].off==ARG){ g_known=c[i].known; g_tok=c[i].tok; } try { V::S_uninitialized_fill_n(at(g_d),g_n,*at(ARG)); ok(g_n,true); } catch(...) { undone(); } }
HARNESS H_vp_ucopy(){ prim(RAW,true); try { V::S_uninitialized_copy((E*)at(g_d),(const E*)at(g_f),(const E*)at(g_f)+g_n); ok(g_n,false); } catch(...) { undone(); } }
HARNESS H_vp_copyn(){ prim(LIVE,true); g_assign=true; try { const E* r=V::S_copy_n(at(g_d),(const E*)at(g_f),g_n); vf_check(off(r)==g_f+g_n*SZ,"the end of the source is returned"); ok(g_n,false); } catch(...) { undone(); } }
#endif
HARNESS H_vp_umove(){ prim(RAW,true); g_move=true; try { V::S_uninitialized_copy((E*)at(g_d),std::make_move_iterator(at(g_f)),std::make_move_iterator(at(g_f)+g_n)); ok(g_n,false); } catch(...) { undone(); } }
#endif
#endif
