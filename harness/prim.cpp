// C10: control-byte groups, bit scans, capacity arithmetic: loop-free or constant-bounded, full domain.
#include "verif.h"
#include <gtl/phmap.hpp>
using namespace gtl::priv;

static inline bool f_full(uint8_t c){ return c < 0x80; }
// a well-formed control byte: full (0..127), empty, deleted or sentinel
static inline uint8_t any_ctrl(){ uint8_t c=vf_u8(); vf_assume(c<0x80||c==0x80||c==0xfe||c==0xff); return c; }
static inline uint32_t clz_spec(uint64_t n, int w){ uint32_t r=0; for(int i=w-1;i>=0;--i){ if((n>>i)&1) break; ++r; } return r; }
static inline uint32_t ctz_spec(uint64_t n, int w){ uint32_t r=0; for(int i=0;i<w;++i){ if((n>>i)&1) break; ++r; } return r; }

template<class G> static void group_harness(){
  constexpr unsigned W=G::kWidth;
  alignas(16) ctrl_t g[W]; for(unsigned i=0;i<W;++i) g[i]=(ctrl_t)any_ctrl();
  uint8_t h=vf_u8(); vf_assume(h<0x80);
  unsigned i=(unsigned)vf_below(W);
  uint8_t c=(uint8_t)g[i];
  G grp{g};
  // iteration over a mask visits exactly its members, in increasing order, each once
  unsigned seen=0; int last=-1; bool inc=true, any=false;
  for(uint32_t b: grp.Match(h)){ if((int)b<=last) inc=false; last=(int)b; if(b==i) ++seen; any=true; if(b>=W) inc=false; }
  vf_check(inc, "Match iterates in increasing order inside the group");
  vf_check(seen<=1, "Match visits a position at most once");
  if(c==h) vf_check(seen==1, "Match reports every slot whose byte equals the tag");
  if(!f_full(c)) vf_check(seen==0, "Match never reports an empty, deleted or sentinel slot");
  if(W==16) vf_check(seen==(c==h), "Match is exact");
  bool real=false; for(unsigned k=0;k<W;++k) if((uint8_t)g[k]==h) real=true;
  vf_check(any==real, "Match is non-empty only if some byte really matches");
  auto me=grp.MatchEmpty(); bool ine=false; for(uint32_t b: me) if(b==i) ine=true;
  vf_check(ine==(c==0x80), "MatchEmpty is exact");
  auto med=grp.MatchEmptyOrDeleted(); bool ined=false; for(uint32_t b: med) if(b==i) ined=true;
  vf_check(ined==(c==0x80||c==0xfe), "MatchEmptyOrDeleted is exact");
  unsigned lo=W, hi=0; for(unsigned k=0;k<W;++k) if((uint8_t)g[k]==0x80){ if(lo==W) lo=k; hi=k; }
  vf_check(!!me==(lo<W), "mask truth value");
  if(me){ vf_check(me.LowestBitSet()==lo && me.TrailingZeros()==lo, "lowest member"); vf_check(me.HighestBitSet()==hi, "highest member"); vf_check(me.LeadingZeros()==W-1-hi, "leading zeros"); }
  unsigned run=0; while(run<W && ((uint8_t)g[run]==0x80||(uint8_t)g[run]==0xfe)) ++run;
  if(run<W) vf_check(grp.CountLeadingEmptyOrDeleted()==run, "CountLeadingEmptyOrDeleted counts the leading run");
  alignas(16) ctrl_t d[W]; grp.ConvertSpecialToEmptyAndFullToDeleted(d);
  vf_check((uint8_t)d[i]==(f_full(c)?0xfe:0x80), "Convert: special->empty, full->deleted");
  vf_check((uint8_t)g[i]==c, "group operations leave the source alone");
  vf_cover("end");
}
#if GTL_HAVE_SSE2
HARNESS H_group_sse2(){ group_harness<GroupSse2Impl>(); }
#endif
HARNESS H_group_portable(){ group_harness<GroupPortableImpl>(); }

HARNESS H_ctrl_preds(){ uint8_t c=any_ctrl(); ctrl_t k=(ctrl_t)c;
  vf_check(IsEmpty(k)==(c==0x80),"IsEmpty"); vf_check(IsFull(k)==(c<0x80),"IsFull"); vf_check(IsDeleted(k)==(c==0xfe),"IsDeleted"); vf_check(IsEmptyOrDeleted(k)==(c==0x80||c==0xfe),"IsEmptyOrDeleted");
  uint64_t h=vf_u64(); vf_check(H2(h)<0x80 && IsFull((ctrl_t)H2(h)),"a tag is a full control byte"); vf_cover("end"); }

HARNESS H_bits(){ uint64_t n=vf_u64();
  vf_check(gtl::CountLeadingZeros64(n)==clz_spec(n,64),"clz64"); vf_check(gtl::CountLeadingZeros64Slow(n)==clz_spec(n,64),"clz64 slow");
  vf_check(gtl::CountLeadingZeros32((uint32_t)n)==clz_spec((uint32_t)n,32),"clz32"); vf_check(gtl::CountLeadingZeros32Slow((uint32_t)n)==clz_spec((uint32_t)n,32),"clz32 slow");
  if(n){ vf_check(gtl::CountTrailingZerosNonZero64(n)==ctz_spec(n,64),"ctz64"); vf_check(gtl::CountTrailingZerosNonZero64Slow(n)==ctz_spec(n,64),"ctz64 slow"); }
  if((uint32_t)n){ vf_check(gtl::CountTrailingZerosNonZero32((uint32_t)n)==ctz_spec((uint32_t)n,32),"ctz32"); vf_check(gtl::CountTrailingZerosNonZero32Slow((uint32_t)n)==ctz_spec((uint32_t)n,32),"ctz32 slow"); }
  vf_cover("end"); }
HARNESS H_endian(){ uint64_t n=vf_u64(); unsigned char b[8], c[8], e[2], f[4]; gtl::little_endian::Store64(b,n); unsigned i=(unsigned)vf_below(8);
  vf_check(b[i]==(uint8_t)(n>>(8*i)),"little_endian store64"); vf_check(gtl::little_endian::Load64(b)==n,"little_endian load64 inverts store64");
  gtl::big_endian::Store64(c,n); vf_check(c[i]==(uint8_t)(n>>(8*(7-i))),"big_endian store64"); vf_check(gtl::big_endian::Load64(c)==n,"big_endian load64 inverts store64");
  gtl::big_endian::Store32(f,(uint32_t)n); vf_check(f[i&3]==(uint8_t)((uint32_t)n>>(8*(3-(i&3)))),"big_endian store32"); vf_check(gtl::big_endian::Load32(f)==(uint32_t)n,"be32 roundtrip");
  gtl::big_endian::Store16(e,(uint16_t)n); vf_check(e[i&1]==(uint8_t)((uint16_t)n>>(8*(1-(i&1)))),"big_endian store16"); vf_check(gtl::big_endian::Load16(e)==(uint16_t)n,"be16 roundtrip");
  gtl::little_endian::Store32(f,(uint32_t)n); vf_check(gtl::little_endian::Load32(f)==(uint32_t)n && f[i&3]==(uint8_t)((uint32_t)n>>(8*(i&3))),"le32"); gtl::little_endian::Store16(e,(uint16_t)n); vf_check(gtl::little_endian::Load16(e)==(uint16_t)n && e[i&1]==(uint8_t)((uint16_t)n>>(8*(i&1))),"le16");
  vf_check(gtl::gbswap_64(gtl::gbswap_64(n))==n,"bswap involution"); vf_cover("end"); }

HARNESS H_capacity(){ uint64_t n=vf_u64(); vf_assume(n<(1ull<<60));
  size_t c=NormalizeCapacity(n);
  vf_check(IsValidCapacity(c),"normalised capacity is 2^k-1"); vf_check(c>=n,"normalised capacity is large enough"); vf_check(n<=1 ? c==1 : (c>>1)<n,"normalised capacity is the smallest one");
  size_t v=vf_u64(); vf_assume(v<(1ull<<61)); vf_check(IsValidCapacity(v)==(v!=0&&((v+1)&v)==0),"IsValidCapacity");
  // room: the growth allowance of the chosen capacity holds n elements, and big tables always keep an empty slot
  size_t g=CapacityToGrowth(c);
  vf_check(g<=c,"growth allowance within capacity"); vf_check(c<Group::kWidth-1 || g<c,"an unallocated slot always remains in a table of at least a group");
  if(Group::kWidth==8) vf_check(c<7||g<c,"an unallocated slot always remains (portable)");
  size_t c2=NormalizeCapacity(GrowthToLowerboundCapacity(n));
  vf_check(CapacityToGrowth(c2)>=n,"capacity chosen for n elements admits n elements without growing");
  vf_check(CapacityToGrowth(c*2+1)>CapacityToGrowth(c)||c==0,"growing makes room");
  vf_cover("end"); }

// one step of the probe sequence, and that offset(i) wraps inside the table
HARNESS H_probe_step(){ unsigned k=(unsigned)vf_below(61); size_t mask=(2ull<<k)-1; size_t h=vf_u64(); probe_seq<Group::kWidth> s(h,mask);
  vf_check(s.offset()==(h&mask) && s.getindex()==0,"probe starts at the hash position");
  size_t i=vf_u64(); vf_check(s.offset(i)==((h+i)&mask),"offset(i) wraps in the table");
  s.next(); vf_check(s.getindex()==Group::kWidth && s.offset()==((h+Group::kWidth)&mask),"first step");
  s.next(); vf_check(s.getindex()==2*Group::kWidth && s.offset()==((h+3*Group::kWidth)&mask),"second step");
  s.next(); vf_check(s.getindex()==3*Group::kWidth && s.offset()==((h+6*Group::kWidth)&mask),"third step (triangular)");
  vf_cover("end"); }
// one step from any state of the sequence: these are the hypotheses of lean/Probe.lean (probe_covers), W = group width, N = capacity+1
HARNESS H_probe_step_any(){ unsigned k=(unsigned)vf_below(61); size_t mask=(2ull<<k)-1; vf_assume(mask+1>=Group::kWidth); size_t h=vf_u64(); probe_seq<Group::kWidth> z(h,mask); vf_check(z.offset()==(h&mask) && z.getindex()==0,"the sequence starts at the hash position");
  probe_seq<Group::kWidth> s(vf_u64(),mask); unsigned char b[sizeof s]; for(size_t i=0;i<sizeof s;++i) b[i]=vf_u8(); __builtin_memcpy((void*)&s,b,sizeof s);
  size_t i=vf_u64(),o=s.offset(); vf_assume(i<=mask/Group::kWidth && o<=mask && s.getindex()==i*Group::kWidth && s.offset(~size_t(0)-o)==mask);
  s.next(); vf_check(s.offset()==((o+(i+1)*Group::kWidth)&mask) && s.getindex()==(i+1)*Group::kWidth && s.offset(~size_t(0)-s.offset())==mask,"step i advances by i+1 groups modulo the table"); 
  size_t j=vf_below(Group::kWidth); vf_check(s.offset(j)==((s.offset()+j)&mask),"slots of a group wrap in the table"); vf_cover("end"); }
// the probe sequence covers every slot position: for capacities 2^k-1 with at most 16 groups, from any start
template<unsigned K> static void probe_cover(){ constexpr size_t mask=(size_t(1)<<K)-1; size_t h=vf_u64(); size_t target=vf_u64(); vf_assume(target<=mask);
  probe_seq<Group::kWidth> s(h,mask); unsigned hits=0; constexpr unsigned n=(mask+1)/Group::kWidth; 
  for(unsigned i=0;i<n;++i){ if(((target-s.offset())&mask)<Group::kWidth) ++hits; s.next(); }
  vf_check(hits==1,"each position is covered by exactly one probe group in a full sweep"); vf_cover("end"); }
HARNESS H_probe_cover_4(){ probe_cover<4>(); }
HARNESS H_probe_cover_5(){ probe_cover<5>(); }
HARNESS H_probe_cover_6(){ probe_cover<6>(); }
HARNESS H_probe_cover_7(){ probe_cover<7>(); }
HARNESS H_probe_cover_8(){ probe_cover<8>(); }

template<unsigned CAP> static void convert_all(){ constexpr unsigned N=CAP+1+Group::kWidth; static ctrl_t c[N]; uint8_t old[CAP]; 
  for(unsigned i=0;i<CAP;++i){ uint8_t x=any_ctrl(); vf_assume(x!=0xff); old[i]=x; c[i]=(ctrl_t)x; } c[CAP]=kSentinel; for(unsigned i=CAP+1;i<N;++i) c[i]=kEmpty;
  ConvertDeletedToEmptyAndFullToDeleted(c,CAP);
  unsigned i=(unsigned)vf_below(CAP); uint8_t e=old[i]<0x80?0xfe:0x80;
  vf_check((uint8_t)c[i]==e,"every control byte converted"); vf_check((uint8_t)c[CAP]==0xff,"sentinel restored");
  if(i<Group::kWidth-1) vf_check((uint8_t)c[CAP+1+i]==e,"cloned bytes follow");
  vf_cover("end"); }
HARNESS H_convert_15(){ convert_all<15>(); }
HARNESS H_convert_63(){ convert_all<63>(); }

// the hash mixing helper is the exact 128-bit product, for all inputs
HARNESS H_umul(){ uint64_t a=vf_u64(), b=vf_u64(), hi; uint64_t lo=umul128(a,b,&hi);
  unsigned __int128 p=(unsigned __int128)a*b; vf_check(lo==(uint64_t)p && hi==(uint64_t)(p>>64),"umul128"); vf_cover("end"); }
