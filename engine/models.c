// Trusted models of the environment (listed in DESIGN.md).
u8  vf_u8(void){ u8 vf_nd_value=nondet_u8(); return vf_nd_value; }
u16 vf_u16(void){ u16 vf_nd_value=nondet_u16(); return vf_nd_value; }
u32 vf_u32(void){ u32 vf_nd_value=nondet_u32(); return vf_nd_value; }
u64 vf_u64(void){ u64 vf_nd_value=nondet_u64(); return vf_nd_value; }
_Bool vf_bool(void){ u8 vf_nd_value=nondet_u8(); __CPROVER_assume(vf_nd_value<2); return vf_nd_value; }
ptr _Znwm(u64 n){ ptr p=malloc(n); __CPROVER_assume(p!=0); return p; }
ptr _Znam(u64 n){ ptr p=malloc(n); __CPROVER_assume(p!=0); return p; }
ptr _ZnwmSt11align_val_t(u64 n,u64 a){ ptr p=malloc(n); __CPROVER_assume(p!=0); return p; }
void _ZdlPv(ptr p){ free(p); }
void _ZdlPvm(ptr p,u64 n){ free(p); }
void _ZdaPv(ptr p){ free(p); }
void _ZdlPvSt11align_val_t(ptr p,u64 a){ free(p); }
void _ZdlPvmSt11align_val_t(ptr p,u64 n,u64 a){ free(p); }
u64 vf_opaque(void){ u64 r=nondet_u64(); return r; }
