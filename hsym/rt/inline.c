// Inline fast paths linked into every instrumented module (clang -emit-llvm).
// All names begin with __s; the instrumenter never instruments them.
typedef unsigned int u32; typedef unsigned long long u64; typedef unsigned char u8;
typedef unsigned short u16;
#define AI __attribute__((always_inline)) static inline
#define UL(x) __builtin_expect(!!(x),0)
#define COLD __attribute__((cold,noinline))
#include "layout.h"
#define USED __attribute__((used))

COLD extern u32 __s_bin(u32 op,u32 sa,u32 sb,u64 a,u64 b);
COLD extern u32 __s_select(u32 bits,u32 sc,u32 c,u32 sa,u32 sb,u64 a,u64 b);
COLD extern u32 __s_load(const void*p,u32 n);
COLD extern u32 __s_load_sym(u32 psh,const void*p,u32 n);
COLD extern void __s_store(void*p,u32 n,u32 vsh);
COLD extern void __s_conc(u32 sh,u64 v);
COLD extern void __s_br(u32 sh,u32 c);
COLD extern void __s_switch(u32 sh,u64 v,const u64*cases,u32 n);
COLD extern void __s_conc_mem(const void*p,u64 n);
COLD extern void __s_memcpy(void*d,const void*s,u64 n);
COLD extern void __s_memset(void*d,u32 vsh,u64 n);

#define T(p) ((u64)TAINT_BASE+((u64)(p)&ARENA_MASK))
typedef u64 __attribute__((aligned(1),may_alias)) uu64;
typedef u32 __attribute__((aligned(1),may_alias)) uu32;
typedef u16 __attribute__((aligned(1),may_alias)) uu16;

u32 USED __si_bin(u32 op,u32 sa,u32 sb,u64 a,u64 b){ if(UL(sa|sb)) return __s_bin(op,sa,sb,a,b); return 0; }
u32 USED __si_select(u32 bits,u32 sc,u32 c,u32 sa,u32 sb,u64 a,u64 b){ if(UL(sc)) return __s_select(bits,sc,c,sa,sb,a,b); return c?sa:sb; }
u32 USED __si_load1(u32 ps,const void*p){ if(UL(ps)) return __s_load_sym(ps,p,1); if(UL(*(u8*)T(p))) return __s_load(p,1); return 0; }
u32 USED __si_load2(u32 ps,const void*p){ if(UL(ps)) return __s_load_sym(ps,p,2); if(UL(*(uu16*)T(p))) return __s_load(p,2); return 0; }
u32 USED __si_load4(u32 ps,const void*p){ if(UL(ps)) return __s_load_sym(ps,p,4); if(UL(*(uu32*)T(p))) return __s_load(p,4); return 0; }
u32 USED __si_load8(u32 ps,const void*p){ if(UL(ps)) return __s_load_sym(ps,p,8); if(UL(*(uu64*)T(p))) return __s_load(p,8); return 0; }
u32 USED __si_loadn(u32 ps,const void*p,u32 n){ // 3,5,6,7,9..16
  if(UL(ps)) return __s_load_sym(ps,p,n);
  for(u32 i=0;i<n;i++) if(UL(*(u8*)T((u64)p+i))) return __s_load(p,n);
  return 0; }
void USED __si_store1(u32 ps,u32 vs,void*p){ if(UL(ps)) __s_conc(ps,(u64)p); if(UL(*(u8*)T(p)|vs)) __s_store(p,1,vs); }
void USED __si_store2(u32 ps,u32 vs,void*p){ if(UL(ps)) __s_conc(ps,(u64)p); if(UL(*(uu16*)T(p)|vs)) __s_store(p,2,vs); }
void USED __si_store4(u32 ps,u32 vs,void*p){ if(UL(ps)) __s_conc(ps,(u64)p); if(UL(*(uu32*)T(p)|vs)) __s_store(p,4,vs); }
void USED __si_store8(u32 ps,u32 vs,void*p){ if(UL(ps)) __s_conc(ps,(u64)p); if(UL(*(uu64*)T(p)|vs)) __s_store(p,8,vs); }
void USED __si_storen(u32 ps,u32 vs,void*p,u32 n){ if(UL(ps)) __s_conc(ps,(u64)p);
  u32 t=vs; for(u32 i=0;i<n;i++) t|=*(u8*)T((u64)p+i);
  if(UL(t)) __s_store(p,n,vs); }
void USED __si_conc(u32 s,u64 v){ if(UL(s)) __s_conc(s,v); }
void USED __si_br(u32 s,u32 c){ if(UL(s)) __s_br(s,c); }
void USED __si_switch(u32 s,u64 v,const u64*c,u32 n){ if(UL(s)) __s_switch(s,v,c,n); }
void USED __si_memcpy(u32 ds,u32 ss,u32 ns,void*d,const void*s,u64 n){
  if(UL(ds|ss|ns)){ if(ds)__s_conc(ds,(u64)d); if(ss)__s_conc(ss,(u64)s); if(ns)__s_conc(ns,n);}
  __s_memcpy(d,s,n); }
void USED __si_memset(u32 ds,u32 vs,u32 ns,void*d,u64 n){
  if(UL(ds|ns)){ if(ds)__s_conc(ds,(u64)d); if(ns)__s_conc(ns,n);}
  __s_memset(d,vs,n); }
void USED __si_concmem(u32 ps,const void*p,u64 n){ if(UL(ps)) __s_conc(ps,(u64)p); 
  for(u64 i=0;i<n;i++) if(UL(*(u8*)T((u64)p+i))) { __s_conc_mem(p,n); return; } }
COLD extern void __si_concw_slow(u32 s);
COLD extern u32 __si_wshift_slow(u32 shl,u32 s,u32 k,u32 bits,u64 lo,u64 hi);
COLD extern u32 __si_wpair_slow(u32 s,u64 lo);
COLD extern u32 __si_wlo_slow(u32 s);
COLD extern u32 __si_wlogic_slow(u32 op,u32 s,u32 t,u64 al,u64 ah,u64 bl,u64 bh);
COLD extern u32 __si_wcmp_slow(u32 op,u32 s,u32 t,u64 al,u64 ah,u64 bl,u64 bh);
void USED __si_concw(u32 s,u64 lo,u64 hi){ if(UL(s)) __si_concw_slow(s); }
u32 USED __si_wshift(u32 shl,u32 s,u32 k,u32 bits,u64 lo,u64 hi){ if(UL(s)) return __si_wshift_slow(shl,s,k,bits,lo,hi); return 0; }
u32 USED __si_wpair(u32 s,u64 lo){ if(UL(s)) return __si_wpair_slow(s,lo); return 0; }
u32 USED __si_wlo(u32 s){ if(UL(s)) return __si_wlo_slow(s); return 0; }
u32 USED __si_wlogic(u32 op,u32 s,u32 t,u64 al,u64 ah,u64 bl,u64 bh){ if(UL(s|t)) return __si_wlogic_slow(op,s,t,al,ah,bl,bh); return 0; }
u32 USED __si_wcmp(u32 op,u32 s,u32 t,u64 al,u64 ah,u64 bl,u64 bh){ if(UL(s|t)) return __si_wcmp_slow(op,s,t,al,ah,bl,bh); return 0; }
