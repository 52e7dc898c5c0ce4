#define ARENA_BASE 0x200000000000ULL
#define ARENA_SIZE 0x40000000ULL      /* 1 GiB: heap grows up, stack at the top */
#define ARENA_MASK 0x3fffffffULL
#define TAINT_BASE 0x210000000000ULL
#define SHADOW_BASE 0x220000000000ULL /* u32 per arena byte */
#define STACK_SIZE 0x4000000ULL       /* 64 MiB */
/* ops */
#define OP_ADD 1
#define OP_SUB 2
#define OP_MUL 3
#define OP_UDIV 4
#define OP_SDIV 5
#define OP_UREM 6
#define OP_SREM 7
#define OP_SHL 8
#define OP_LSHR 9
#define OP_ASHR 10
#define OP_AND 11
#define OP_OR 12
#define OP_XOR 13
#define OP_EQ 14
#define OP_NE 15
#define OP_ULT 16
#define OP_ULE 17
#define OP_UGT 18
#define OP_UGE 19
#define OP_SLT 20
#define OP_SLE 21
#define OP_SGT 22
#define OP_SGE 23
#define OP_TRUNC 24   /* b unused; out bits */
#define OP_ZEXT 25
#define OP_SEXT 26
#define OP_UADDO 27
#define OP_SADDO 28
#define OP_USUBO 29
#define OP_SSUBO 30
#define OP_UMULO 31
#define OP_SMULO 32
#define OP_UMIN 33
#define OP_UMAX 34
#define OP_SMIN 35
#define OP_SMAX 36
#define OP_CTPOP 37
#define OP_CTLZ 38
#define OP_CTTZ 39
#define OP_BSWAP 40
#define OP_BITREV 41
#define OP_USUBSAT 42
#define OP_UADDSAT 43
#define OP_ABS 44
#define OP_UCMP 45
#define OP_SCMP 46
#define OP_ITE 50
#define OP_CONST 51
#define OP_VAR 52
#define OP_CONCAT 53
#define OP_EXTRACT 54 /* byte k of a */
#define OP_ROM 55     /* literal table over a */
#define OP_PAIR 56    /* 128-bit: lo=a hi=b */
