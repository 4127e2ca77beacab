// C prelude for the extracted code (CBMC side).
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64; typedef unsigned __int128 u128;
typedef signed char s8; typedef short s16; typedef int s32; typedef long s64; typedef __int128 s128;
typedef u8* ptr;
void* malloc(u64); void free(void*); void* memcpy(void*,const void*,u64); void* memmove(void*,const void*,u64); void* memset(void*,int,u64);
u64 nondet_u64(void); u32 nondet_u32(void); u16 nondet_u16(void); u8 nondet_u8(void); ptr nondet_ptr(void);
#define HAVE_vf_u8
#define HAVE_vf_u16
#define HAVE_vf_u32
#define HAVE_vf_u64
#define HAVE_vf_opaque
#define HAVE_vf_bool
#define HAVE_malloc
#define HAVE_free
#define HAVE_memcpy
#define HAVE_memmove
#define HAVE_memset
#define HAVE__Znwm
#define HAVE__Znam
#define HAVE__ZdlPv
#define HAVE__ZdlPvm
#define HAVE__ZdaPv
#define HAVE__ZnwmSt11align_val_t
#define HAVE__ZdlPvSt11align_val_t
#define HAVE__ZdlPvmSt11align_val_t
static inline double vf_bits2d(u64 b){ union { u64 u; double d; } x; x.u=b; return x.d; }
static inline u64 vf_d2bits(double b){ union { u64 u; double d; } x; x.d=b; return x.u; }
static inline float vf_bits2f(u32 b){ union { u32 u; float d; } x; x.u=b; return x.d; }
static inline u32 vf_f2bits(float b){ union { u32 u; float d; } x; x.d=b; return x.u; }
static inline u64 vf_popcount(u64 x){ x = x - ((x>>1)&0x5555555555555555ul); x=(x&0x3333333333333333ul)+((x>>2)&0x3333333333333333ul); x=(x+(x>>4))&0x0f0f0f0f0f0f0f0ful; return (x*0x0101010101010101ul)>>56; }
static inline u64 vf_cttz(u64 x, u64 w){ if(x==0) return w; u64 n=0; 
  if(!(x&0xffffffffu)){ n+=32; x>>=32; } if(!(x&0xffffu)){ n+=16; x>>=16; } if(!(x&0xffu)){ n+=8; x>>=8; } if(!(x&0xfu)){ n+=4; x>>=4; } if(!(x&3u)){ n+=2; x>>=2; } if(!(x&1u)) n+=1; return n; }
static inline u64 vf_ctlz(u64 x, u64 w){ if(x==0) return w; u64 n=0; 
  if(x>>32){ n+=32; x>>=32; } if(x>>16){ n+=16; x>>=16; } if(x>>8){ n+=8; x>>=8; } if(x>>4){ n+=4; x>>=4; } if(x>>2){ n+=2; x>>=2; } if(x>>1) n+=1; return w-1-n; }
#define vf_memcpy_c(d,s,n) do { struct vf_blk { u8 b[n]; }; struct vf_blk vf_t = *(struct vf_blk*)(s); *(struct vf_blk*)(d) = vf_t; } while(0)
#ifdef VF_MEM_LOOP
static inline void vf_memcpy(ptr d, ptr s, u64 n){ for(u64 i=0;i<n;++i) d[i]=s[i]; }
static inline void vf_memmove(ptr d, ptr s, u64 n){ if(__CPROVER_POINTER_OBJECT(d)!=__CPROVER_POINTER_OBJECT(s) || d<=s){ for(u64 i=0;i<n;++i) d[i]=s[i]; } else { for(u64 i=n;i>0;--i) d[i-1]=s[i-1]; } }
static inline void vf_memset(ptr d, u8 c, u64 n){ for(u64 i=0;i<n;++i) d[i]=c; }
#else
#define vf_memcpy(d,s,n) memcpy(d,s,n)
#define vf_memmove(d,s,n) memmove(d,s,n)
#define vf_memset(d,c,n) memset(d,c,n)
#endif
u64 vf_opaque(void); u8 vf_u8(void); u16 vf_u16(void); u32 vf_u32(void); u64 vf_u64(void); _Bool vf_bool(void);
ptr _Znwm(u64); ptr _Znam(u64); void _ZdlPv(ptr); void _ZdlPvm(ptr,u64); void _ZdaPv(ptr); ptr _ZnwmSt11align_val_t(u64,u64); void _ZdlPvSt11align_val_t(ptr,u64); void _ZdlPvmSt11align_val_t(ptr,u64,u64);
