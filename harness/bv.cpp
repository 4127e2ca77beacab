// C11-C13: bit_vector / bit_view.  Fully symbolic contents, length (0..64*VF_SLOTS bits), ranges, alignments
// and arguments; the postcondition is stated for an arbitrary (symbolic) bit index.
#include "verif.h"
#include <gtl/bit_vector.hpp>
#include <new>
#ifndef VF_SLOTS
#define VF_SLOTS 3
#endif
using gtl::bit_vector; using gtl::bit_view;
static constexpr size_t NB=64*VF_SLOTS;
struct Sym { // a bit_vector over its own buffer, with a copy of the initial words
  uint64_t buf[VF_SLOTS]; uint64_t old[VF_SLOTS]; alignas(bit_vector) unsigned char mem[sizeof(bit_vector)]; size_t n;
  bit_vector& v(){ return *reinterpret_cast<bit_vector*>(mem); }
  bool bit(size_t i) const { return (old[i>>6]>>(i&63))&1; }                 // initial value
  bool now(size_t i) { return (v()._s._s._M_impl._M_start[i>>6]>>(i&63))&1; } // current value (raw)
};
static void make(Sym& s, size_t n){
  s.n=n; new (s.mem) bit_vector();                     // default constructed, then given a symbolic state satisfying the type invariant
  for(unsigned k=0;k<VF_SLOTS;++k){ uint64_t w=vf_u64(); if(64*k>=n) w=0; else if(n-64*k<64) w&=(uint64_t(1)<<(n-64*k))-1; s.buf[k]=s.old[k]=w; }
  bit_vector& b=s.v(); b._sz=n; b._s._sz=n; auto& im=b._s._s._M_impl; im._M_start=s.buf; im._M_finish=s.buf+((n+63)>>6); im._M_end_of_storage=s.buf+VF_SLOTS;
}
static void sym(Sym& s){ make(s, vf_upto(NB)); }
#define INV(s) do{ vf_check((s).v()._sz==(s).n && (s).v()._s._sz==(s).n,"length unchanged"); \
   vf_check((size_t)((s).v()._s._s._M_impl._M_finish-(s).v()._s._s._M_impl._M_start)==(((s).n+63)>>6),"word count matches length"); \
   if((s).n&63) vf_check(((s).v()._s._s._M_impl._M_start[(s).n>>6]>>((s).n&63))==0,"bits beyond the length stay zero"); }while(0)
#define UNCHANGED(s) do{ size_t uc_=vf_below(VF_SLOTS); vf_check((s).buf[uc_]==(s).old[uc_],"operand is not modified"); }while(0)

// ---------------------------------------------------------------- C11: one bit
#define ONE(NAME,CALL,SPEC) HARNESS NAME(){ static Sym s; sym(s); vf_assume(s.n>0); size_t i=vf_below(s.n), j=vf_below(s.n); bool b=vf_bool(); (void)b; \
   CALL; bool e=(j==i)?(SPEC):s.bit(j); vf_check(s.v()[j]==e && s.v().test(j)==e && s.now(j)==e,"exactly the addressed bit changes"); INV(s); vf_cover("end"); }
ONE(H_bv_set1, s.v().set(i), true)
ONE(H_bv_reset1, s.v().reset(i), false)
ONE(H_bv_flip1, s.v().flip(i), !s.bit(i))
ONE(H_bv_assign1, s.v().set(i,b), b)
// whole vector
#define ALL(NAME,CALL,SPEC) HARNESS NAME(){ static Sym s; sym(s); CALL; if(s.n){ size_t j=vf_below(s.n); vf_check(s.v()[j]==(SPEC),"every bit has the specified value"); } INV(s); vf_cover("end"); }
ALL(H_bv_setall, s.v().set(), true)
ALL(H_bv_resetall, s.v().reset(), false)
ALL(H_bv_flipall, s.v().flip(), !s.bit(j))
// logical, both operands the same length
#define BIN(NAME,OP,SPEC) HARNESS NAME(){ static Sym s,t; sym(s); make(t,s.n); OP; if(s.n){ size_t j=vf_below(s.n); bool a=s.bit(j), b=t.bit(j); vf_check(s.v()[j]==(SPEC),"bitwise result"); } INV(s); UNCHANGED(t); vf_cover("end"); }
BIN(H_bv_or, s.v()|=t.v(), a||b)
BIN(H_bv_and, s.v()&=t.v(), a&&b)
BIN(H_bv_xor, s.v()^=t.v(), a!=b)
BIN(H_bv_sub, s.v()-=t.v(), a&&!b)
BIN(H_bv_ornot, s.v().or_not(t.v()), a||!b)
// self operands
HARNESS H_bv_self(){ static Sym s; sym(s); unsigned k=vf_u8()&3; if(k==0) s.v()|=s.v(); else if(k==1) s.v()&=s.v(); else if(k==2) s.v()^=s.v(); else s.v()-=s.v();
  if(s.n){ size_t j=vf_below(s.n); vf_check(s.v()[j]==(k<2?s.bit(j):false),"operation with itself"); } INV(s); vf_cover("end"); }
// copying forms
#define CPY(NAME,EXPR,SPEC) HARNESS NAME(){ static Sym s,t; sym(s); make(t,s.n); size_t c=vf_u64(); (void)c; bit_vector r(EXPR); vf_check(r.size()==s.n,"result length"); if(s.n){ size_t j=vf_below(s.n); bool a=s.bit(j), b=t.bit(j); (void)b; vf_check(r[j]==(SPEC),"result bit"); if(s.n&63) vf_check((r._s._s._M_impl._M_start[s.n>>6]>>(s.n&63))==0,"bits beyond the length are zero"); } UNCHANGED(s); UNCHANGED(t); vf_cover("end"); }
CPY(H_bv_cor, s.v()|t.v(), a||b)
CPY(H_bv_cand, s.v()&t.v(), a&&b)
CPY(H_bv_cxor, s.v()^t.v(), a!=b)
CPY(H_bv_csub, s.v()-t.v(), a&&!b)
CPY(H_bv_cnot, ~s.v(), !a)
CPY(H_bv_cshl, s.v()<<c, (c<s.n-j) && s.bit(j+c) && ((void)a,true))
CPY(H_bv_cshr, s.v()>>c, (c<=j) && s.bit(j-c) && ((void)a,true))
// shifts of the whole vector: << moves bits to lower indices, zeroes come in
#define SH(NAME,OP,SPEC) HARNESS NAME(){ static Sym s; sym(s); size_t c=vf_u64(); OP; if(s.n){ size_t j=vf_below(s.n); vf_check(s.v()[j]==(SPEC),"shifted bit"); } INV(s); vf_cover("end"); }
SH(H_bv_shl, s.v()<<=c, c<s.n-j && s.bit(j+c))
SH(H_bv_shr, s.v()>>=c, c<=j && s.bit(j-c))
// construction and resizing
HARNESS H_bv_ctor(){ size_t n=vf_upto(NB); bool b=vf_bool(); bit_vector v(n,b); vf_check(v.size()==n && v.empty()==(n==0),"length"); if(n){ size_t j=vf_below(n); vf_check(v[j]==b,"initial bits"); if(n&63) vf_check((v._s[n>>6]>>(n&63))==0,"bits beyond the length are zero"); } vf_check(v.num_blocks()==((n+63)>>6),"blocks"); vf_cover("end"); }
HARNESS H_bv_resize(){ static Sym s; sym(s); size_t m=vf_upto(NB); bool b=vf_bool(); s.v().resize(m,b); vf_check(s.v().size()==m,"length"); size_t o=s.n; s.n=m; if(m){ size_t j=vf_below(m); vf_check(s.v()[j]==(j<o?s.bit(j):b),"old bits kept, new bits as requested"); } INV(s); vf_cover("end"); }
HARNESS H_bv_swap(){ static Sym s,t; sym(s); sym(t); size_t j=vf_upto(NB); s.v().swap(t.v()); vf_check(s.v().size()==t.n && t.v().size()==s.n,"lengths swapped"); if(j<t.n) vf_check(s.v()[j]==t.bit(j),"bits swapped"); if(j<s.n) vf_check(t.v()[j]==s.bit(j),"bits swapped"); vf_cover("end"); }
HARNESS H_bv_ilist(){ static Sym s; make(s, vf_upto(NB)); uint64_t a=vf_u64(), b=vf_u64(); s.v()={a,b}; if(s.n){ size_t j=vf_below(s.n); bool e= j<64? (a>>j)&1 : j<128 ? (b>>(j-64))&1 : s.bit(j); vf_check(s.v()[j]==e,"words assigned in order"); } INV(s); vf_cover("end"); }
HARNESS H_bv_copy(){ static Sym s; sym(s); bit_vector r(s.v()); size_t j=vf_upto(NB); vf_check(r.size()==s.n,"length"); if(j<s.n) vf_check(r[j]==s.bit(j),"copied bit"); if(j<s.n){ r.flip(j); vf_check(s.now(j)==s.bit(j),"copy is independent"); } vf_cover("end"); }

// ---------------------------------------------------------------- C12: views
static void range(size_t n,size_t& f,size_t& l){ f=vf_upto(n); l=vf_upto(n); vf_assume(f<=l); }
#define VALL(NAME,CALL,SPEC) HARNESS NAME(){ static Sym s; sym(s); size_t f,l; range(s.n,f,l); CALL; if(s.n){ size_t j=vf_below(s.n); bool e=(j>=f&&j<l)?(SPEC):s.bit(j); vf_check(s.v()[j]==e,"exactly the range is affected"); } INV(s); vf_cover("end"); }
VALL(H_bw_set, s.v().view(f,l).set(), true)
VALL(H_bw_reset, s.v().view(f,l).reset(), false)
VALL(H_bw_flip, s.v().view(f,l).flip(), !s.bit(j))
HARNESS H_bw_one(){ static Sym s; sym(s); size_t f,l; range(s.n,f,l); vf_assume(f<l); size_t i=vf_below(l-f), j=vf_below(s.n); unsigned k=vf_u8()%5; bit_view w=s.v().view(f,l); vf_check(w.size()==l-f && !w.empty(),"view size"); vf_check(w[i]==s.bit(f+i),"view reads its own bit");
  bool e; switch(k){ case 0: w.set(i); e=true; break; case 1: w.reset(i); e=false; break; case 2: w.flip(i); e=!s.bit(f+i); break; case 3: w.set(i,true); e=true; break; default: w.set(i,false); e=false; }
  vf_check(s.v()[j]==(j==f+i?e:s.bit(j)),"exactly one bit of the vector changes"); INV(s); vf_cover("end"); }
// second operand: a view of another vector at its own alignment
#define VBIN(NAME,OP,SPEC) HARNESS NAME(){ static Sym s,t; sym(s); sym(t); size_t f,l; range(s.n,f,l); size_t g=vf_upto(t.n); vf_assume(l-f<=t.n-g); bit_view w=s.v().view(f,l), x=t.v().view(g,g+(l-f)); OP; \
   if(s.n){ size_t j=vf_below(s.n); bool a=s.bit(j), e=a; if(j>=f&&j<l){ bool b=t.bit(g+(j-f)); e=(SPEC); } vf_check(s.v()[j]==e,"bitwise result inside, unchanged outside"); } INV(s); UNCHANGED(t); vf_cover("end"); }
VBIN(H_bw_or, w|=x, a||b)
VBIN(H_bw_and, w&=x, a&&b)
VBIN(H_bw_xor, w^=x, a!=b)
VBIN(H_bw_sub, w-=x, a&&!b)
VBIN(H_bw_ornot, w.or_not(x), a||!b)
VBIN(H_bw_asg, w=x, ((void)a, b))
// same vector: disjoint, overlapping up or down, identical
HARNESS H_bw_asg_same(){ static Sym s; sym(s); size_t f,l; range(s.n,f,l); size_t g=vf_upto(s.n); vf_assume(l-f<=s.n-g); bit_view w=s.v().view(f,l), x=s.v().view(g,g+(l-f)); w=x;
   if(s.n){ size_t j=vf_below(s.n); bool e=(j>=f&&j<l)?s.bit(g+(j-f)):s.bit(j); vf_check(s.v()[j]==e,"copied range, rest unchanged"); } INV(s); vf_cover("end"); }
HARNESS H_bw_shl(){ static Sym s; sym(s); size_t f,l; range(s.n,f,l); size_t c=vf_u64(); s.v().view(f,l)<<=c; if(s.n){ size_t j=vf_below(s.n); bool e=s.bit(j); if(j>=f&&j<l) e = c<l-j && s.bit(j+c); vf_check(s.v()[j]==e,"shifted inside, unchanged outside"); } INV(s); vf_cover("end"); }
HARNESS H_bw_shr(){ static Sym s; sym(s); size_t f,l; range(s.n,f,l); size_t c=vf_u64(); s.v().view(f,l)>>=c; if(s.n){ size_t j=vf_below(s.n); bool e=s.bit(j); if(j>=f&&j<l) e = c<=j-f && s.bit(j-c); vf_check(s.v()[j]==e,"shifted inside, unchanged outside"); } INV(s); vf_cover("end"); }
HARNESS H_bw_int(){ static Sym s; sym(s); size_t f,l; range(s.n,f,l); vf_assume(l-f<=64); uint64_t x=vf_u64(); s.v().view(f,l)=x; if(s.n){ size_t j=vf_below(s.n); bool e=s.bit(j); if(j>=f&&j<l) e=(x>>(j-f))&1; vf_check(s.v()[j]==e,"integer assigned to the range"); } INV(s); vf_cover("end"); }
HARNESS H_bw_ilist(){ static Sym s; sym(s); size_t f,l; range(s.n,f,l); uint64_t x=vf_u64(), y=vf_u64(); s.v().view(f,l)={x,y}; if(s.n){ size_t j=vf_below(s.n); bool e=s.bit(j); if(j>=f&&j<l){ size_t d=j-f; if(d<64) e=(x>>d)&1; else if(d<128) e=(y>>(d-64))&1; } vf_check(s.v()[j]==e,"words assigned to the range in order"); } INV(s); vf_cover("end"); }
HARNESS H_bw_copyslow(){ static Sym s,t; sym(s); sym(t); size_t f,l; range(s.n,f,l); vf_assume(l-f<=8); size_t g=vf_upto(t.n); vf_assume(l-f<=t.n-g); s.v().view(f,l).copy_slow(t.v().view(g,g+(l-f))); if(s.n){ size_t j=vf_below(s.n); bool e=s.bit(j); if(j>=f&&j<l) e=t.bit(g+(j-f)); vf_check(s.v()[j]==e,"copied"); } INV(s); vf_cover("end"); }

// ---------------------------------------------------------------- C13: queries
static inline unsigned pc(uint64_t x){ unsigned r=0; for(int i=0;i<64;++i) r+=(x>>i)&1; return r; }
static inline uint64_t rmask(size_t k,size_t f,size_t l){ // bits of word k inside [f,l)
  size_t b=64*k, e=b+64; if(f>b) b=f; if(l<e) e=l; if(b>=e) return 0; size_t w=e-b; uint64_t m=(w==64)?~uint64_t(0):((uint64_t(1)<<w)-1); return m<<(b-64*k); }
HARNESS H_bq_pred(){ static Sym s; sym(s); uint64_t any=0, miss=0; for(unsigned k=0;k<VF_SLOTS;++k){ uint64_t m=rmask(k,0,s.n); any|=s.old[k]&m; miss|=m&~s.old[k]; }
  vf_check(s.v().any()==(any!=0),"any"); vf_check(s.v().none()==(any==0),"none"); vf_check(s.v().every()==(miss==0),"every"); vf_check(s.v().to_ullong()==(s.n?s.old[0]:0),"to_ullong"); UNCHANGED(s); vf_cover("end"); }
HARNESS H_bw_pred(){ static Sym s; sym(s); size_t f,l; range(s.n,f,l); uint64_t any=0, miss=0; for(unsigned k=0;k<VF_SLOTS;++k){ uint64_t m=rmask(k,f,l); any|=s.old[k]&m; miss|=m&~s.old[k]; }
  bit_view w=s.v().view(f,l); vf_check(w.any()==(any!=0),"view any"); vf_check(w.none()==(any==0),"view none"); vf_check(w.every()==(miss==0),"view every"); UNCHANGED(s); vf_cover("end"); }
HARNESS H_bq_count(){ static Sym s; sym(s); size_t c=0; for(unsigned k=0;k<VF_SLOTS;++k) c+=gtl::bitv::_popcount64(s.old[k]&rmask(k,0,s.n)); vf_check(s.v().count()==c,"count"); UNCHANGED(s); vf_cover("end"); }
HARNESS H_bw_count(){ static Sym s; sym(s); size_t f,l; range(s.n,f,l); size_t c=0; for(unsigned k=0;k<VF_SLOTS;++k) c+=gtl::bitv::_popcount64(s.old[k]&rmask(k,f,l)); vf_check(s.v().view(f,l).count()==c,"view count"); UNCHANGED(s); vf_cover("end"); }
HARNESS H_bq_popcount(){ uint64_t x=vf_u64(); vf_check(gtl::bitv::_popcount64(x)==pc(x),"word population count"); vf_cover("end"); }
HARNESS H_bq_ctz(){ unsigned i=(unsigned)vf_below(64); uint64_t x=vf_u64(); x&=~((uint64_t(1)<<i)|((uint64_t(1)<<i)-1)); x|=uint64_t(1)<<i; vf_check(gtl::bitv::countr_zero(x)==i,"trailing zeros of any non-zero word"); vf_cover("end"); }
// find: result r is the least index >= start with a set bit, or npos when there is none (witness j: any set bit)
HARNESS H_bw_find(){ static Sym s; sym(s); size_t f,l; range(s.n,f,l); size_t r=s.v().view(f,l).find_first(); size_t j=vf_upto(NB); 
  if(r==bit_view::npos){ if(j<l-f) vf_check(!s.bit(f+j),"no result means no set bit"); } else { vf_check(r<l-f && s.bit(f+r),"the reported bit is set and in range"); if(j<r) vf_check(!s.bit(f+j),"no earlier set bit"); } UNCHANGED(s); vf_cover("end"); }
HARNESS H_bw_findnext(){ static Sym s; sym(s); size_t f,l; range(s.n,f,l); size_t st=vf_u64(); vf_assume(st<(uint64_t(1)<<62)); size_t r=s.v().view(f,l).find_next(st); size_t j=vf_upto(NB); 
  if(r==bit_view::npos){ if(j>=st && j<l-f) vf_check(!s.bit(f+j),"no result means no set bit from start on"); } else { vf_check(r>=st && r<l-f && s.bit(f+r),"the reported bit is set, in range, not before start"); if(j>=st && j<r) vf_check(!s.bit(f+j),"no earlier set bit"); } UNCHANGED(s); vf_cover("end"); }
HARNESS H_bq_find(){ static Sym s; sym(s); size_t st=vf_upto(NB+70); bool first=vf_bool(); size_t r= first? s.v().find_first() : s.v().find_next(st); if(first) st=0; size_t j=vf_upto(NB);
  if(r==bit_vector::npos){ if(j>=st&&j<s.n) vf_check(!s.bit(j),"no result means no set bit"); } else { vf_check(r>=st&&r<s.n&&s.bit(r),"the reported bit is set"); if(j>=st&&j<r) vf_check(!s.bit(j),"no earlier set bit"); } UNCHANGED(s); vf_cover("end"); }
static bool bit_at(const Sym& s,size_t i){ return s.bit(i); }
// relation queries between two views: res compared with a witness-free word-wise specification
template<class F> static bool words_all(const Sym& s,size_t f,const Sym& t,size_t g,size_t len,F pred){ bool ok=true; for(size_t i=0;i<NB;++i) if(i<len && !pred(bit_at(s,f+i),bit_at(t,g+i))) ok=false; return ok; }
#define VREL(NAME,EXPR,LEN,REL,PRE) HARNESS NAME(){ static Sym s,t; sym(s); sym(t); size_t f,l,g,h; range(s.n,f,l); range(t.n,g,h); bit_view w=s.v().view(f,l), x=t.v().view(g,h); size_t a=l-f,b=h-g; (void)a;(void)b; PRE; bool r=EXPR; size_t len=(LEN); size_t j=vf_upto(NB); \
   if(r){ if(j<len) vf_check(REL(s.bit(f+j),t.bit(g+j)),"a positive answer holds for every bit"); } else vf_check(!words_all(s,f,t,g,len,[](bool p,bool q){return REL(p,q);}),"a negative answer has a witness"); UNCHANGED(s); UNCHANGED(t); vf_cover("end"); }
#define R_EQ(p,q) ((p)==(q))
#define R_SUP(p,q) ((p)||!(q))
#define R_DIS(p,q) (!((p)&&(q)))
VREL(H_bw_eq, w==x, a, R_EQ, vf_assume(a==b))
VREL(H_bw_contains, w.contains(x), b, R_SUP, vf_assume(a>=b))
VREL(H_bw_disjoint, w.disjoint(x), (a<b?a:b), R_DIS, vf_assume(true))
HARNESS H_bq_eq(){ static Sym s,t; sym(s); sym(t); bool r=s.v()==t.v(); bool e=s.n==t.n; for(unsigned k=0;k<VF_SLOTS;++k) if(s.old[k]!=t.old[k]) e=false; vf_check(r==e,"equal exactly when same length and bits"); vf_check((s.v()!=t.v())==!e,"inequality is the negation"); vf_check(s.v()==s.v(),"reflexive"); UNCHANGED(s); UNCHANGED(t); vf_cover("end"); }
HARNESS H_bq_rel(){ static Sym s,t; sym(s); make(t,s.n); bool c=true,d=true; for(unsigned k=0;k<VF_SLOTS;++k){ if(t.old[k]&~s.old[k]) c=false; if(t.old[k]&s.old[k]) d=false; } vf_check(s.v().contains(t.v())==c,"contains"); vf_check(s.v().disjoint(t.v())==d,"disjoint"); vf_check(s.v().intersects(t.v())==!d,"intersects"); vf_cover("end"); }
HARNESS H_bw_difflen(){ static Sym s,t; sym(s); sym(t); size_t f,l,g,h; range(s.n,f,l); range(t.n,g,h); vf_assume(l-f!=h-g); vf_check(!(s.v().view(f,l)==t.v().view(g,h)),"views of different length differ"); vf_cover("end"); }
// equal vectors hash equal
HARNESS H_bq_hash(){ static Sym s,t; sym(s); make(t,s.n); for(unsigned k=0;k<VF_SLOTS;++k) vf_assume(s.old[k]==t.old[k]); std::hash<bit_vector> h; vf_check(h(s.v())==h(t.v()),"equal vectors hash equal"); vf_cover("end"); }
