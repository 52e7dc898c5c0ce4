// hsym runtime: symbolic expression store, path exploration, Z3 back end.
// The instrumented program (prog.so) runs natively inside a private arena; each
// run is one path of the real code, its path condition is a formula over the
// symbolic choices, and every branch side is either explored or refuted by Z3.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <ucontext.h>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <cerrno>
#include <time.h>
#include <z3.h>
#include "layout.h"
using namespace std;
typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8; typedef unsigned __int128 u128;
#define EX extern "C" __attribute__((visibility("default")))

static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

// ---------- expression store ----------
struct Node{ u8 op,bits,inb; u8 var; u32 a,b,c; u64 k; u64 deps; u64 kz,ko; u32 tbl; u32 stampD; u8 constD; u32 es; u64 ev; };
// var: 255 = not a table node
static vector<Node> N;
static vector<u64> pool;        // table values
static vector<u32> kids;        // concat children
static int nvars; static u32 varN[64];
struct BS{ u64 w[4]; bool get(int i)const{return w[i>>6]>>(i&63)&1;} void set(int i){w[i>>6]|=1ull<<(i&63);} bool any()const{return w[0]|w[1]|w[2]|w[3];} int count()const{return __builtin_popcountll(w[0])+__builtin_popcountll(w[1])+__builtin_popcountll(w[2])+__builtin_popcountll(w[3]);} int first()const{for(int i=0;i<4;i++) if(w[i]) return i*64+__builtin_ctzll(w[i]); return -1;} bool operator==(const BS&o)const{return !memcmp(w,o.w,32);} };
struct Work{ vector<BS> D; vector<u32> M; vector<u8> as; };
static Work cur; static vector<Work> queue_;
static u32 dver[64]; static vector<u8> live[64]; static u32 dverNext=1;
static u32 evalStamp=1;
static unordered_map<u64,vector<u32>> tabIntern; struct K3{u64 a,b; bool operator==(const K3&o)const{return a==o.a&&b==o.b;}}; struct H3{size_t operator()(const K3&k)const{ u64 x=k.a*0x9E3779B97F4A7C15ull^ (k.b+0x7F4A7C15)*0xD6E8FEB86659FD93ull; return x^(x>>29);} };
static unordered_map<K3,u32,H3> opIntern; static unordered_map<u64,vector<u32>> constIntern, catIntern;

struct Stats{ u64 runs,splits,implied,z3q,z3sat,z3unsat,z3unknown,slow,asserts,assumed,conc; double z3t; u64 multi,vbatch,vclaims; };
static Stats st;
static jmp_buf topjb; static volatile int inRun=0; static volatile int inRT=0; static volatile int tmo=0;
enum Outcome{ O_OK=1,O_ASSUME,O_VIOL,O_PANIC,O_TIMEOUT,O_CRASH,O_OOM,O_ERR };
static string outMsg; static u32 outId;
static bool vmode=false; static bool stopJob=false; static bool incomplete=false;
[[noreturn]] static void fin(int o){ inRT=0; longjmp(topjb,o); }
[[noreturn]] static void engErr(const string&m){ outMsg=m; fin(O_ERR); }
struct RT{ RT(){ inRT=inRT+1; st.slow++; } ~RT(){ inRT=inRT-1; if(inRT==0&&tmo){ tmo=0; fin(O_TIMEOUT);} } };

static u64 mask(int b){ return b>=64?~0ull:((1ull<<b)-1); }
static int64_t sx(u64 v,int b){ return b>=64?(int64_t)v:((int64_t)(v<<(64-b)))>>(64-b); }
static u32 newNode(Node n){ N.push_back(n); return N.size()-1; }
static Node blank(){ Node n; memset(&n,0,sizeof n); n.var=255; return n; }
static u32 mkConst(u64 v,int bits){ v&=mask(bits); u64 h=v*31+bits; auto&l=constIntern[h]; for(u32 x:l) if(N[x].k==v&&N[x].bits==bits) return x; Node n=blank(); n.op=OP_CONST; n.bits=bits; n.k=v; n.ko=v; n.kz=~v; u32 id=newNode(n); l.push_back(id); return id; }
static inline bool isC(u32 x){ return N[x].op==OP_CONST; }
static inline u64 valAt(u32 x,int i){ const Node&n=N[x]; return n.op==OP_CONST?n.k:pool[n.tbl+i]; }

static u64 ev_op(int op,int ib,int ob,u64 a,u64 b){
  u64 m=mask(ib); a&=m; b&=m; u64 r=0;
  switch(op){
    case OP_ADD:r=a+b;break; case OP_SUB:r=a-b;break; case OP_MUL:r=a*b;break;
    case OP_UDIV:r=b?a/b:0;break; case OP_UREM:r=b?a%b:0;break;
    case OP_SDIV:{ int64_t x=sx(a,ib),y=sx(b,ib); r=(y==0)?0:(y==-1?(u64)-x:(u64)(x/y)); break;}
    case OP_SREM:{ int64_t x=sx(a,ib),y=sx(b,ib); r=(y==0||y==-1)?0:(u64)(x%y); break;}
    case OP_SHL:r=b>=(u64)ib?0:a<<b;break; case OP_LSHR:r=b>=(u64)ib?0:a>>b;break; case OP_ASHR:r=(u64)(sx(a,ib)>>(b>=(u64)ib?ib-1:b));break;
    case OP_AND:r=a&b;break; case OP_OR:r=a|b;break; case OP_XOR:r=a^b;break;
    case OP_EQ:r=a==b;break; case OP_NE:r=a!=b;break; case OP_ULT:r=a<b;break; case OP_ULE:r=a<=b;break; case OP_UGT:r=a>b;break; case OP_UGE:r=a>=b;break;
    case OP_SLT:r=sx(a,ib)<sx(b,ib);break; case OP_SLE:r=sx(a,ib)<=sx(b,ib);break; case OP_SGT:r=sx(a,ib)>sx(b,ib);break; case OP_SGE:r=sx(a,ib)>=sx(b,ib);break;
    case OP_TRUNC: r=a;break; case OP_ZEXT:r=a;break; case OP_SEXT:r=(u64)sx(a,ib);break;
    case OP_UADDO:{ u64 s=(a+b)&m; r=s<a; break;} case OP_USUBO:r=a<b;break;
    case OP_SADDO:{ __int128 s=(__int128)sx(a,ib)+sx(b,ib); r=s!=sx((u64)s&m,ib);break;} case OP_SSUBO:{ __int128 s=(__int128)sx(a,ib)-sx(b,ib); r=s!=sx((u64)s&m,ib);break;}
    case OP_UMULO:{ u128 s=(u128)a*b; r=(s>>ib)!=0;break;} case OP_SMULO:{ __int128 s=(__int128)sx(a,ib)*sx(b,ib); r=s!=sx((u64)s&m,ib);break;}
    case OP_UMIN:r=min(a,b);break; case OP_UMAX:r=max(a,b);break; case OP_SMIN:r=sx(a,ib)<sx(b,ib)?a:b;break; case OP_SMAX:r=sx(a,ib)>sx(b,ib)?a:b;break;
    case OP_CTPOP:r=__builtin_popcountll(a);break; case OP_CTLZ:r=a?__builtin_clzll(a)-(64-ib):ib;break; case OP_CTTZ:r=a?__builtin_ctzll(a):ib;break;
    case OP_BSWAP:{ for(int i=0;i<ib/8;i++) r|=((a>>(8*i))&255)<<(ib-8-8*i); break;} case OP_BITREV:{ for(int i=0;i<ib;i++) r|=((a>>i)&1)<<(ib-1-i); break;}
    case OP_USUBSAT:r=a<b?0:a-b;break; case OP_UADDSAT:{ u64 s=(a+b)&m; r=s<a?m:s;break;} case OP_ABS:{ int64_t x=sx(a,ib); r=(u64)(x<0?-x:x);break;}
    case OP_UCMP:r=a<b?~0ull:(a>b);break; case OP_SCMP:{int64_t x=sx(a,ib),y=sx(b,ib); r=x<y?~0ull:(x>y);break;}
    default: engErr("ev_op "+to_string(op)); }
  return r&mask(ob);
}
static bool nodeIsTab(u32 x){ return N[x].var!=255; }
// ev: value of node under the current assignment
static u64 eval(u32 x){
  Node&n=N[x]; if(n.op==OP_CONST) return n.k; if(n.var!=255) return pool[n.tbl+cur.as[n.var]];
  if(n.es==evalStamp) return n.ev; u64 r;
  if(n.op==OP_CONCAT){ r=0; for(u32 i=0;i<n.b;i++) r|=eval(kids[N[x].a+i])<<(8*i); }
  else if(n.op==OP_EXTRACT) r=(eval(n.a)>>(8*n.k))&255;
  else if(n.op==OP_ITE){ r=eval(n.c)?eval(N[x].a):eval(N[x].b); }
  else { u64 a=eval(n.a); u64 b=N[x].b?eval(N[x].b):0; r=ev_op(N[x].op,N[x].inb,N[x].bits,a,b); }
  N[x].es=evalStamp; N[x].ev=r; return r;
}
static u32 internTab(int v,int bits,const u64*vals,int op,int ib,u32 a,u32 b,u32 c,u64 k){
  u32 n=varN[v]; bool same=true; for(u32 i=1;i<n;i++) if(vals[i]!=vals[0]){same=false;break;}
  if(same) return mkConst(vals[0],bits);
  u64 h=v*1000003+bits; for(u32 i=0;i<n;i++) h=(h^vals[i])*0x100000001b3ull+ (h>>31);
  auto&l=tabIntern[h]; for(u32 x:l){ if(N[x].var==v&&N[x].bits==bits&&!memcmp(&pool[N[x].tbl],vals,8*n)) return x; }
  Node d=blank(); d.op=op; d.bits=bits; d.inb=ib; d.var=v; d.a=a; d.b=b; d.c=c; d.k=k; d.deps=1ull<<v; d.tbl=pool.size(); pool.insert(pool.end(),vals,vals+n);
  u64 o=~0ull,z=~0ull; for(u32 i=0;i<n;i++){ o&=vals[i]; z&=~vals[i]; } d.ko=o; d.kz=z|~mask(bits);
  u32 id=newNode(d); l.push_back(id); return id;
}
static u32 mk(int op,int ib,int ob,u32 a,u32 b);
static u32 mkExtract(u32 x,int i);
static u32 mkConcat(const u32*ch,int n);
static u32 mkIte(u32 c,u32 a,u32 b,int bits);
static u32 mkNot(u32 x){ return mk(OP_XOR,1,1,x,mkConst(1,1)); }
static u32 mkAnd(u32 a,u32 b){ return mk(OP_AND,1,1,a,b); }
static int singleVar(u64 deps){ return __builtin_popcountll(deps)==1?__builtin_ctzll(deps):-1; }

static u32 asByteCat(u32 x,u32*out){ // returns number of bytes if x can be seen bytewise, else 0
  Node&n=N[x]; if(n.bits%8||n.bits==0) return 0; u32 nb=n.bits/8;
  if(n.op==OP_CONCAT){ for(u32 i=0;i<nb;i++) out[i]=kids[n.a+i]; return nb; }
  if(n.op==OP_CONST||n.var!=255){ for(u32 i=0;i<nb;i++) out[i]=mkExtract(x,i); return nb; }
  return 0; }
static u32 mk(int op,int ib,int ob,u32 a,u32 b){
  if(op==OP_TRUNC||op==OP_ZEXT||op==OP_SEXT){ if(ib==ob) return a; b=mkConst(0,ib); }
  if(isC(a)&&isC(b)) return mkConst(ev_op(op,ib,ob,N[a].k,N[b].k),ob);
  if(isC(a)&&(op==OP_ADD||op==OP_MUL||op==OP_AND||op==OP_OR||op==OP_XOR||op==OP_EQ||op==OP_NE)) swap(a,b);
  // identities
  if(isC(b)){ u64 k=N[b].k; if(k==0&&(op==OP_ADD||op==OP_SUB||op==OP_OR||op==OP_XOR||op==OP_SHL||op==OP_LSHR||op==OP_ASHR)) return a; if(k==0&&(op==OP_AND||op==OP_MUL)) return b; if(op==OP_AND&&k==mask(ib)) return a; if(op==OP_MUL&&k==1) return a;
    if(ib==1&&((op==OP_EQ&&k==1)||(op==OP_NE&&k==0))) return a; if(ib==1&&((op==OP_EQ&&k==0)||(op==OP_NE&&k==1))) return mkNot(a); }
  if(a==b){ if(op==OP_SUB||op==OP_XOR||op==OP_NE||op==OP_ULT||op==OP_UGT||op==OP_SLT||op==OP_SGT) return mkConst(0,ob); if(op==OP_EQ||op==OP_ULE||op==OP_UGE||op==OP_SLE||op==OP_SGE) return mkConst(1,ob); if(op==OP_AND||op==OP_OR) return a; }
  K3 key{(u64)op|(u64)ib<<8|(u64)ob<<16,(u64)a|(u64)b<<32}; auto it=opIntern.find(key); if(it!=opIntern.end()) return it->second;
  u64 deps=N[a].deps|N[b].deps; int v=singleVar(deps); u32 r=0;
  if(v>=0&&(isC(a)||nodeIsTab(a))&&(isC(b)||nodeIsTab(b))){ u64 vals[256]; u32 n=varN[v]; for(u32 i=0;i<n;i++) vals[i]=ev_op(op,ib,ob,valAt(a,i),valAt(b,i)); r=internTab(v,ob,vals,op,ib,a,b,0,0); opIntern[key]=r; return r; }
  // multi-variable rewriting
  u32 ca[8],cb[8],cc[8];
  auto memo=[&](u32 x){ opIntern[key]=x; return x; };
  if(op==OP_AND||op==OP_OR||op==OP_XOR){ if(ib>8){ u32 na=asByteCat(a,ca),nb=na?asByteCat(b,cb):0; if(na&&nb){ for(u32 i=0;i<na;i++) cc[i]=mk(op,8,8,ca[i],cb[i]); return memo(mkConcat(cc,na)); } }
    if(op==OP_XOR&&ib==1&&isC(b)&&N[b].k==1&&N[a].op==OP_XOR&&N[a].var==255&&isC(N[a].b)) return memo(N[a].a);
    // drop byte-level: (x op y) & k with x,y known
  }
  if(op==OP_EQ||op==OP_NE){ if(ib>8){ u32 na=asByteCat(a,ca),nb=na?asByteCat(b,cb):0; if(na&&nb){ u32 r2=mkConst(1,1); for(u32 i=0;i<na;i++) r2=mkAnd(r2,mk(OP_EQ,8,1,ca[i],cb[i])); return memo(op==OP_EQ?r2:mkNot(r2)); } }
    if(isC(b)&&N[a].op==OP_ITE&&N[a].var==255){ Node x=N[a]; u32 t=mk(op,ib,1,x.a,b),f=mk(op,ib,1,x.b,b); return memo(mkIte(x.c,t,f,1)); }
    if(isC(b)&&N[a].op==OP_ZEXT&&N[a].var==255){ int sb=N[a].inb; if(N[b].k<=mask(sb)) return memo(mk(op,sb,1,N[a].a,mkConst(N[b].k,sb))); return memo(mkConst(op==OP_NE,1)); }
    if(op==OP_NE) return memo(mkNot(mk(OP_EQ,ib,1,a,b))); }
  if(op==OP_TRUNC){ if(ob%8==0){ u32 na=asByteCat(a,ca); if(na) return memo(mkConcat(ca,ob/8)); } if((N[a].op==OP_ZEXT||N[a].op==OP_SEXT)&&N[a].var==255){ int sb=N[a].inb; if(ob<=sb) return memo(mk(OP_TRUNC,sb,ob,N[a].a,0)); if(N[a].op==OP_ZEXT) return memo(mk(OP_ZEXT,sb,ob,N[a].a,0)); }
    if(N[a].op==OP_ITE&&N[a].var==255){ Node x=N[a]; return memo(mkIte(x.c,mk(op,ib,ob,x.a,0),mk(op,ib,ob,x.b,0),ob)); } }
  if(op==OP_ZEXT){ if(ob%8==0&&ib%8==0){ u32 na=asByteCat(a,ca); if(na&&N[a].op==OP_CONCAT){ for(u32 i=na;i<(u32)ob/8;i++) ca[i]=mkConst(0,8); return memo(mkConcat(ca,ob/8)); } }
    if(N[a].op==OP_ITE&&N[a].var==255){ Node x=N[a]; return memo(mkIte(x.c,mk(op,ib,ob,x.a,0),mk(op,ib,ob,x.b,0),ob)); } }
  if((op==OP_LSHR||op==OP_SHL)&&isC(b)&&N[b].k%8==0&&N[b].k<(u64)ib){ u32 na=asByteCat(a,ca); int s=N[b].k/8; if(na&&N[a].op==OP_CONCAT){ for(u32 i=0;i<na;i++){ int j=op==OP_LSHR?(int)i+s:(int)i-s; cc[i]=(j>=0&&j<(int)na)?ca[j]:mkConst(0,8);} return memo(mkConcat(cc,na)); } }
  if(op==OP_BSWAP){ u32 na=asByteCat(a,ca); if(na&&N[a].op==OP_CONCAT){ for(u32 i=0;i<na;i++) cc[i]=ca[na-1-i]; return memo(mkConcat(cc,na)); } }
  // known bits
  u64 m=mask(ob),kz=~m,ko=0; const Node&A=N[a];const Node&Bn=N[b];
  switch(op){ case OP_AND: kz|=A.kz|Bn.kz; ko=A.ko&Bn.ko; break; case OP_OR: kz|=A.kz&Bn.kz; ko=A.ko|Bn.ko; break; case OP_XOR: kz|=(A.kz&Bn.kz)|(A.ko&Bn.ko); ko=(A.kz&Bn.ko)|(A.ko&Bn.kz); break;
    case OP_ZEXT: kz|=A.kz|~mask(ib); ko=A.ko&mask(ib); break; case OP_TRUNC: kz|=A.kz; ko=A.ko; break;
    case OP_SHL: if(isC(b)&&Bn.k<64){ kz|=(A.kz<<Bn.k)|((1ull<<Bn.k)-1); ko=A.ko<<Bn.k; } break;
    case OP_LSHR: if(isC(b)&&Bn.k<64){ kz|=((A.kz|~mask(ib))>>Bn.k)|~(mask(ib)>>Bn.k); ko=(A.ko&mask(ib))>>Bn.k; } break;
    case OP_ADD:{ u64 ma=~A.kz&mask(ib),mb=~Bn.kz&mask(ib); u128 s=(u128)ma+mb; if(s<=(u128)m){ u64 x=(u64)s; int hb=x?64-__builtin_clzll(x):0; if(hb<64) kz|=~((1ull<<hb)-1); } break; }
    default: break; }
  ko&=m;
  if((kz|ko)==~0ull||((kz|ko)&m)==m) return memo(mkConst(ko,ob));
  { u64 mm=mask(ib),amin=A.ko&mm,amax=~A.kz&mm,bmin=Bn.ko&mm,bmax=~Bn.kz&mm; int t=-1;
    switch(op){ case OP_EQ: if((A.ko&Bn.kz&mm)||(A.kz&Bn.ko&mm)) t=0; break; case OP_ULT: if(amax<bmin)t=1; else if(amin>=bmax)t=0; break; case OP_ULE: if(amax<=bmin)t=1; else if(amin>bmax)t=0; break; case OP_UGT: if(amin>bmax)t=1; else if(amax<=bmin)t=0; break; case OP_UGE: if(amin>=bmax)t=1; else if(amax<bmin)t=0; break; }
    if(t>=0) return memo(mkConst(t,1)); }
  Node d=blank(); d.op=op; d.inb=ib; d.bits=ob; d.a=a; d.b=b; d.deps=deps; d.kz=kz; d.ko=ko; r=newNode(d); opIntern[key]=r; return r;
}
static u32 mkIte(u32 c,u32 a,u32 b,int bits){
  if(isC(c)) return N[c].k?a:b; if(a==b) return a;
  if(bits==1&&isC(a)&&isC(b)) return N[a].k?c:mkNot(c);
  K3 key{(u64)OP_ITE|(u64)bits<<8|(u64)c<<32,(u64)a|(u64)b<<32}; auto it=opIntern.find(key); if(it!=opIntern.end()) return it->second;
  u64 deps=N[a].deps|N[b].deps|N[c].deps; int v=singleVar(deps); u32 r;
  if(v>=0&&nodeIsTab(c)&&(isC(a)||nodeIsTab(a))&&(isC(b)||nodeIsTab(b))){ u64 vals[256]; for(u32 i=0;i<varN[v];i++) vals[i]=valAt(c,i)?valAt(a,i):valAt(b,i); r=internTab(v,bits,vals,OP_ITE,1,a,b,c,0); }
  else { Node d=blank(); d.op=OP_ITE; d.inb=bits; d.bits=bits; d.a=a; d.b=b; d.c=c; d.deps=deps; d.kz=N[a].kz&N[b].kz; d.ko=N[a].ko&N[b].ko; r=newNode(d); }
  opIntern[key]=r; return r;
}
static u32 mkExtract(u32 x,int i){
  Node&n=N[x]; if(n.bits==8&&i==0) return x; if(n.op==OP_CONST) return mkConst((n.k>>(8*i))&255,8);
  if(n.op==OP_CONCAT&&n.var==255) return kids[n.a+i];
  K3 key{(u64)OP_EXTRACT|(u64)i<<8,(u64)x}; auto it=opIntern.find(key); if(it!=opIntern.end()) return it->second; u32 r;
  if(n.var!=255){ u64 vals[256]; int v=n.var; for(u32 j=0;j<varN[v];j++) vals[j]=(pool[N[x].tbl+j]>>(8*i))&255; r=internTab(v,8,vals,OP_EXTRACT,N[x].bits,x,0,0,i); }
  else { Node d=blank(); d.op=OP_EXTRACT; d.bits=8; d.inb=n.bits; d.a=x; d.k=i; d.deps=n.deps; d.kz=(n.kz>>(8*i))|~255ull; d.ko=(n.ko>>(8*i))&255; 
    if((((d.kz|d.ko))&255)==255) r=mkConst(d.ko,8); else r=newNode(d); }
  opIntern[key]=r; return r;
}
static u32 mkConcat(const u32*ch0,int n){
  u32 ch[8]; memcpy(ch,ch0,4*n);
  if(n==1) return ch[0];
  bool allc=true; u64 deps=0; for(int i=0;i<n;i++){ if(!isC(ch[i])) allc=false; deps|=N[ch[i]].deps; }
  if(allc){ u64 v=0; for(int i=0;i<n;i++) v|=N[ch[i]].k<<(8*i); return mkConst(v,8*n); }
  { Node&f=N[ch[0]]; if(f.op==OP_EXTRACT&&f.k==0&&f.inb==8*n){ bool ok=true; for(int i=1;i<n&&ok;i++){ Node&g=N[ch[i]]; if(!(g.op==OP_EXTRACT&&g.a==f.a&&(int)g.k==i)) { // constant high bytes of the same node
          ok=false; } } if(ok) return f.a; }
    // zext pattern: extracts of x then zeros handled by table path below
  }
  u64 h=n; for(int i=0;i<n;i++) h=(h^ch[i])*0x100000001b3ull+(h>>29);
  auto&l=catIntern[h]; for(u32 x:l){ Node&d=N[x]; if((int)d.c==n){ bool ok=true; for(int i=0;i<n;i++) if(kids[d.a+i]!=ch[i]){ok=false;break;} if(ok) return d.tbl==0xffffffff?d.b:x; } }
  // store a concat key node; if table, remember result in b with tbl=0xffffffff marker
  int v=singleVar(deps); bool tab=v>=0; if(tab) for(int i=0;i<n;i++) if(!isC(ch[i])&&!nodeIsTab(ch[i])) tab=false;
  Node d=blank(); d.op=OP_CONCAT; d.bits=8*n; d.inb=8; d.a=kids.size(); d.b=n; d.c=n; d.deps=deps; for(int i=0;i<n;i++) kids.push_back(ch[i]);
  u64 kz=n==8?0:~mask(8*n),ko=0; for(int i=0;i<n;i++){ kz|=(N[ch[i]].kz&255)<<(8*i); ko|=(N[ch[i]].ko&255)<<(8*i); } d.kz=kz; d.ko=ko;
  if(tab){ u64 vals[256]; for(u32 j=0;j<varN[v];j++){ u64 x=0; for(int i=0;i<n;i++) x|=valAt(ch[i],j)<<(8*i); vals[j]=x; }
    u32 kidsOff=d.a; d.tbl=0xffffffff; u32 key=newNode(d); catIntern[h].push_back(key); u32 r=internTab(v,8*n,vals,OP_CONCAT,8,kidsOff,n,n,0); N[key].b=r; return r; }
  u32 id=newNode(d); catIntern[h].push_back(id); return id;
}

// ---------- Z3 ----------
static Z3_context Z; static Z3_solver S; static vector<Z3_ast> zast; static Z3_sort bvs[129]; static Z3_ast zvar[64];
static Z3_sort bvsort(int b){ if(!bvs[b]) bvs[b]=Z3_mk_bv_sort(Z,b); return bvs[b]; }
static Z3_ast keep(Z3_ast a){ return a; }
static Z3_ast zk(u64 v,int b){ return Z3_mk_unsigned_int64(Z,v,bvsort(b)); }
static Z3_ast inSet(int v,const BS&s){ // v in set, as ranges
  int n=varN[v]; vector<Z3_ast> d; for(int i=0;i<n;){ if(!s.get(i)){i++;continue;} int j=i; while(j+1<n&&s.get(j+1)) j++; Z3_ast c; if(i==j) c=Z3_mk_eq(Z,zvar[v],zk(i,8)); else { Z3_ast x[2]={Z3_mk_bvule(Z,zk(i,8),zvar[v]),Z3_mk_bvule(Z,zvar[v],zk(j,8))}; c=Z3_mk_and(Z,2,x);} d.push_back(c); i=j+1; }
  if(d.empty()) return Z3_mk_false(Z); if(d.size()==1) return d[0]; return Z3_mk_or(Z,d.size(),d.data()); }
static Z3_ast b2v(Z3_ast c){ return Z3_mk_ite(Z,c,zk(1,1),zk(0,1)); }
static Z3_ast zn(u32 x);
static Z3_ast znb(u32 x){ return Z3_mk_eq(Z,zn(x),zk(1,1)); }
static Z3_ast zx(Z3_ast a,int from,int to){ if(to==from) return a; if(to>from) return Z3_mk_zero_ext(Z,to-from,a); return Z3_mk_extract(Z,to-1,0,a); }
static Z3_ast zn(u32 x){
  if(zast.size()<N.size()) zast.resize(N.size(),nullptr); if(zast[x]) return zast[x];
  Node n=N[x]; Z3_ast r=nullptr; int ib=n.inb,ob=n.bits;
  switch(n.op){
    case OP_CONST: r=zk(n.k,n.bits); break;
    case OP_VAR: r=zvar[n.var]; break;
    case OP_ROM:{ // literal table over variable
      map<u64,BS> g; for(u32 i=0;i<varN[n.var];i++){ u64 v=pool[n.tbl+i]; auto it=g.find(v); if(it==g.end()) it=g.insert({v,BS{{0,0,0,0}}}).first; it->second.set(i);} 
      bool first=true; for(auto&[v,s]:g){ if(first){ r=zk(v,ob); first=false; } else r=Z3_mk_ite(Z,inSet(n.var,s),zk(v,ob),r); } break; }
    case OP_CONCAT:{ u32 cnt=n.c; r=zn(kids[n.a]); for(u32 i=1;i<cnt;i++) r=Z3_mk_concat(Z,zn(kids[n.a+i]),r); break; }
    case OP_EXTRACT: r=Z3_mk_extract(Z,8*n.k+7,8*n.k,zn(n.a)); break;
    case OP_ITE: r=Z3_mk_ite(Z,znb(n.c),zn(n.a),zn(n.b)); break;
    case OP_TRUNC: r=Z3_mk_extract(Z,ob-1,0,zn(n.a)); break; case OP_ZEXT: r=Z3_mk_zero_ext(Z,ob-ib,zn(n.a)); break; case OP_SEXT: r=Z3_mk_sign_ext(Z,ob-ib,zn(n.a)); break;
    default:{ Z3_ast a=zn(n.a),b=zn(n.b); 
      switch(n.op){
        case OP_ADD:r=Z3_mk_bvadd(Z,a,b);break; case OP_SUB:r=Z3_mk_bvsub(Z,a,b);break; case OP_MUL:r=Z3_mk_bvmul(Z,a,b);break;
        case OP_UDIV:r=Z3_mk_ite(Z,Z3_mk_eq(Z,b,zk(0,ib)),zk(0,ib),Z3_mk_bvudiv(Z,a,b));break; case OP_UREM:r=Z3_mk_ite(Z,Z3_mk_eq(Z,b,zk(0,ib)),zk(0,ib),Z3_mk_bvurem(Z,a,b));break;
        case OP_SDIV:r=Z3_mk_ite(Z,Z3_mk_eq(Z,b,zk(0,ib)),zk(0,ib),Z3_mk_bvsdiv(Z,a,b));break; case OP_SREM:r=Z3_mk_ite(Z,Z3_mk_eq(Z,b,zk(0,ib)),zk(0,ib),Z3_mk_bvsrem(Z,a,b));break;
        case OP_SHL:r=Z3_mk_bvshl(Z,a,b);break; case OP_LSHR:r=Z3_mk_bvlshr(Z,a,b);break; case OP_ASHR:r=Z3_mk_bvashr(Z,a,b);break;
        case OP_AND:r=Z3_mk_bvand(Z,a,b);break; case OP_OR:r=Z3_mk_bvor(Z,a,b);break; case OP_XOR:r=Z3_mk_bvxor(Z,a,b);break;
        case OP_EQ:r=b2v(Z3_mk_eq(Z,a,b));break; case OP_NE:r=b2v(Z3_mk_not(Z,Z3_mk_eq(Z,a,b)));break;
        case OP_ULT:r=b2v(Z3_mk_bvult(Z,a,b));break; case OP_ULE:r=b2v(Z3_mk_bvule(Z,a,b));break; case OP_UGT:r=b2v(Z3_mk_bvugt(Z,a,b));break; case OP_UGE:r=b2v(Z3_mk_bvuge(Z,a,b));break;
        case OP_SLT:r=b2v(Z3_mk_bvslt(Z,a,b));break; case OP_SLE:r=b2v(Z3_mk_bvsle(Z,a,b));break; case OP_SGT:r=b2v(Z3_mk_bvsgt(Z,a,b));break; case OP_SGE:r=b2v(Z3_mk_bvsge(Z,a,b));break;
        case OP_UMIN:r=Z3_mk_ite(Z,Z3_mk_bvult(Z,a,b),a,b);break; case OP_UMAX:r=Z3_mk_ite(Z,Z3_mk_bvult(Z,a,b),b,a);break; case OP_SMIN:r=Z3_mk_ite(Z,Z3_mk_bvslt(Z,a,b),a,b);break; case OP_SMAX:r=Z3_mk_ite(Z,Z3_mk_bvslt(Z,a,b),b,a);break;
        case OP_USUBSAT:r=Z3_mk_ite(Z,Z3_mk_bvult(Z,a,b),zk(0,ib),Z3_mk_bvsub(Z,a,b));break;
        case OP_UADDSAT:{ Z3_ast s=Z3_mk_bvadd(Z,a,b); r=Z3_mk_ite(Z,Z3_mk_bvult(Z,s,a),zk(mask(ib),ib),s);break;}
        case OP_USUBO:r=b2v(Z3_mk_bvult(Z,a,b));break; case OP_UADDO:r=b2v(Z3_mk_bvult(Z,Z3_mk_bvadd(Z,a,b),a));break;
        case OP_SADDO:{ Z3_ast s=Z3_mk_bvadd(Z,Z3_mk_sign_ext(Z,1,a),Z3_mk_sign_ext(Z,1,b)); r=b2v(Z3_mk_not(Z,Z3_mk_eq(Z,Z3_mk_extract(Z,ib,ib,s),Z3_mk_extract(Z,ib-1,ib-1,s))));break;}
        case OP_SSUBO:{ Z3_ast s=Z3_mk_bvsub(Z,Z3_mk_sign_ext(Z,1,a),Z3_mk_sign_ext(Z,1,b)); r=b2v(Z3_mk_not(Z,Z3_mk_eq(Z,Z3_mk_extract(Z,ib,ib,s),Z3_mk_extract(Z,ib-1,ib-1,s))));break;}
        case OP_UMULO:{ Z3_ast s=Z3_mk_bvmul(Z,Z3_mk_zero_ext(Z,ib,a),Z3_mk_zero_ext(Z,ib,b)); r=b2v(Z3_mk_not(Z,Z3_mk_eq(Z,Z3_mk_extract(Z,2*ib-1,ib,s),zk(0,ib))));break;}
        case OP_SMULO:{ Z3_ast s=Z3_mk_bvmul(Z,Z3_mk_sign_ext(Z,ib,a),Z3_mk_sign_ext(Z,ib,b)); r=b2v(Z3_mk_not(Z,Z3_mk_eq(Z,s,Z3_mk_sign_ext(Z,ib,Z3_mk_extract(Z,ib-1,0,s)))));break;}
        case OP_BSWAP:{ for(int i=0;i<ib/8;i++){ Z3_ast e=Z3_mk_extract(Z,8*i+7,8*i,a); r=r?Z3_mk_concat(Z,r,e):e;} break;}
        case OP_BITREV:{ for(int i=0;i<ib;i++){ Z3_ast e=Z3_mk_extract(Z,i,i,a); r=r?Z3_mk_concat(Z,r,e):e;} break;}
        case OP_ABS:r=Z3_mk_ite(Z,Z3_mk_bvslt(Z,a,zk(0,ib)),Z3_mk_bvneg(Z,a),a);break;
        case OP_CTPOP:{ Z3_ast s=zk(0,ob); for(int i=0;i<ib;i++) s=Z3_mk_bvadd(Z,s,zx(Z3_mk_extract(Z,i,i,a),1,ob)); r=s;break;}
        case OP_CTLZ:{ r=zk(ib,ob); for(int i=0;i<ib;i++) r=Z3_mk_ite(Z,Z3_mk_eq(Z,Z3_mk_extract(Z,i,i,a),zk(1,1)),zk(ib-1-i,ob),r); break;}
        case OP_CTTZ:{ r=zk(ib,ob); for(int i=ib-1;i>=0;i--) r=Z3_mk_ite(Z,Z3_mk_eq(Z,Z3_mk_extract(Z,i,i,a),zk(1,1)),zk(i,ob),r); break;}
        case OP_UCMP:r=Z3_mk_ite(Z,Z3_mk_bvult(Z,a,b),zk(mask(ob),ob),Z3_mk_ite(Z,Z3_mk_eq(Z,a,b),zk(0,ob),zk(1,ob)));break;
        case OP_SCMP:r=Z3_mk_ite(Z,Z3_mk_bvslt(Z,a,b),zk(mask(ob),ob),Z3_mk_ite(Z,Z3_mk_eq(Z,a,b),zk(0,ob),zk(1,ob)));break;
        default: engErr("z3 op "+to_string(n.op)); } }
  }
  zast[x]=keep(r); return r;
}
static Z3_lbool zcheck(){ double t=now(); Z3_lbool r=Z3_solver_check(Z,S); st.z3t+=now()-t; st.z3q++; if(r==Z3_L_TRUE) st.z3sat++; else if(r==Z3_L_FALSE) st.z3unsat++; else st.z3unknown++; return r; }
struct KV{ u32 n; u32 v; BS d; bool operator==(const KV&o)const{return n==o.n&&v==o.v&&d==o.d;} }; struct HV{ size_t operator()(const KV&k)const{ u64 h=k.n*2+k.v; for(int i=0;i<4;i++) h=(h^k.d.w[i])*0x9E3779B97F4A7C15ull+(h>>27); return h; } };
static unordered_map<KV,bool,HV> implMemo;
// the claim: for every value of its variable inside D, node x equals val.  Decided by Z3 on the operator DAG.
struct PV{ u32 x; u64 val; BS d; }; static vector<PV> pendV;
static Z3_ast pvAst(const PV&p){ Z3_ast a[2]={inSet(N[p.x].var,p.d),Z3_mk_not(Z,Z3_mk_eq(Z,zn(p.x),zk(p.val,N[p.x].bits)))}; return Z3_mk_and(Z,2,a); }
static string verifyErr;
// the recorded claims are discharged in batches: the disjunction of their negations must be UNSAT
static void flushV(){
  if(pendV.empty()) return; vector<Z3_ast> d; for(auto&p:pendV) d.push_back(pvAst(p));
  Z3_solver_push(Z,S); Z3_solver_assert(Z,S,d.size()==1?d[0]:Z3_mk_or(Z,d.size(),d.data())); Z3_lbool r=zcheck(); Z3_solver_pop(Z,S,1); st.vbatch++; st.vclaims+=d.size();
  if(r!=Z3_L_FALSE) for(size_t i=0;i<d.size();i++){ Z3_solver_push(Z,S); Z3_solver_assert(Z,S,d[i]); Z3_lbool q=zcheck(); Z3_solver_pop(Z,S,1); if(q==Z3_L_UNDEF) incomplete=true; else if(q==Z3_L_TRUE){ verifyErr="Z3 disagrees with table on node "+to_string(pendV[i].x)+" op "+to_string(N[pendV[i].x].op); } }
  pendV.clear();
}
static void verifyImplied(u32 x,u64 val){
  Node&n=N[x]; int v=n.var; KV k{x,(u32)val,cur.D[v]}; if(!implMemo.emplace(k,true).second) return;
  pendV.push_back({x,val&mask(N[x].bits),cur.D[v]}); }
// a fresh solver context per job (non-reference-counted: terms live as long as the context)
static void zreset(){ zast.clear(); memset(bvs,0,sizeof bvs); if(Z){ Z3_solver_dec_ref(Z,S); Z3_del_context(Z); }
  Z3_config c=Z3_mk_config(); Z=Z3_mk_context(c); Z3_del_config(c); S=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,S); Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),10000); Z3_solver_set_params(Z,S,p); Z3_params_dec_ref(Z,p); for(int i=0;i<64;i++) zvar[i]=Z3_mk_const(Z,Z3_mk_int_symbol(Z,i),bvsort(8)); }
static unordered_map<u64,int> multiMemo; // key hash -> not used when sat (need model)

// ---------- path state ----------
static void setD(int v,const BS&b){ cur.D[v]=b; dver[v]=++dverNext; live[v].clear(); for(u32 i=0;i<varN[v];i++) if(b.get(i)) live[v].push_back(i); }
static bool constOnD(u32 x){ Node&n=N[x]; if(n.op==OP_CONST) return true; if(n.var==255) return false; int v=n.var; if(n.stampD==dver[v]) return n.constD; bool c=true; const u64*t=&pool[n.tbl]; u64 f=t[live[v][0]]; for(u8 i:live[v]) if(t[i]!=f){c=false;break;} n.stampD=dver[v]; n.constD=c; if(c) verifyImplied(x,f); return c; }
static u64 mdeps(){ u64 d=0; for(u32 m:cur.M) d|=N[m].deps; return d; }
// satisfiability of D' /\ M /\ extra ; fills model into as
static int zsolve(const vector<u32>&M,const vector<BS>&D,u32 lit,bool litVal,vector<u8>&as,u64 startDeps){
  u64 deps=startDeps|(lit?N[lit].deps:0); vector<bool> use(M.size(),false); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<M.size();i++) if(!use[i]&&(N[M[i]].deps&deps)){ use[i]=true; if((deps|N[M[i]].deps)!=deps){ deps|=N[M[i]].deps; } ch=true; } }
  Z3_solver_push(Z,S);
  for(int v=0;v<nvars;v++) if(deps>>v&1) Z3_solver_assert(Z,S,inSet(v,D[v]));
  for(size_t i=0;i<M.size();i++) if(use[i]) Z3_solver_assert(Z,S,znb(M[i]));
  if(lit){ Z3_ast a=znb(lit); Z3_solver_assert(Z,S,litVal?a:Z3_mk_not(Z,a)); }
  Z3_lbool r=zcheck();
  if(r==Z3_L_TRUE){ Z3_model m=Z3_solver_get_model(Z,S); Z3_model_inc_ref(Z,m); for(int v=0;v<nvars;v++) if(deps>>v&1){ Z3_ast o; if(Z3_model_eval(Z,m,zvar[v],true,&o)){ uint64_t x=0; Z3_get_numeral_uint64(Z,o,&x); as[v]=(u8)x; } } Z3_model_dec_ref(Z,m); }
  Z3_solver_pop(Z,S,1);
  return r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
}
static void decide(u32 x,bool val);
static void restrictVar(int v,const BS&mine,const BS&other){
  // split D[v]; both non-empty, current assignment in mine
  u64 md=mdeps();
  if(md>>v&1){ Work w=cur; w.D[v]=other; vector<u8> as=cur.as; int r=zsolve(w.M,w.D,0,false,as,1ull<<v); if(r==1){ w.as=as; queue_.push_back(move(w)); st.splits++; } else if(r<0) incomplete=true; }
  else { Work w=cur; w.D[v]=other; w.as[v]=other.first(); queue_.push_back(move(w)); st.splits++; }
  setD(v,mine);
}
static void decide(u32 x,bool val){
  Node n=N[x];
  if(n.op==OP_CONST) return;
  if(n.var!=255){ int v=n.var; BS a{{0,0,0,0}},b{{0,0,0,0}}; const u64*t=&pool[n.tbl]; for(u8 i:live[v]) if((t[i]&1)==(u64)val) a.set(i); else b.set(i);
    if(!a.get(cur.as[v])) engErr("assignment outside decision");
    if(!b.any()){ st.implied++; verifyImplied(x,val); return; }
    restrictVar(v,a,b); return; }
  if(n.op==OP_XOR&&n.bits==1&&isC(n.b)){ decide(n.a,val^(N[n.b].k&1)); return; }
  if(n.op==OP_AND&&n.bits==1){ bool ea=eval(n.a)&1; if(val){ decide(n.a,true); decide(n.b,true); } else if(!ea) decide(n.a,false); else { decide(n.a,true); decide(n.b,false);} return; }
  if(n.op==OP_OR&&n.bits==1){ bool ea=eval(n.a)&1; if(!val){ decide(n.a,false); decide(n.b,false); } else if(ea) decide(n.a,true); else { decide(n.a,false); decide(n.b,true);} return; }
  if(n.op==OP_ITE&&n.bits==1){ bool c=eval(n.c)&1; decide(n.c,c); decide(c?n.a:n.b,val); return; }
  // multi-variable decision
  st.multi++;
  u32 lit=val?x:mkNot(x);
  for(u32 m:cur.M) if(m==lit){ return; }
  { // quick table-free check through known single values
    vector<u8> as=cur.as; int r=zsolve(cur.M,cur.D,x,!val,as,0);
    if(r<0){ incomplete=true; cur.M.push_back(lit); return; }
    if(r==0){ cur.M.push_back(lit); st.implied++; return; }
    Work w=cur; w.M.push_back(val?mkNot(x):x); w.as=as; queue_.push_back(move(w)); st.splits++; }
  cur.M.push_back(lit);
}
static void concretize(u32 x,u64 val){
  Node n=N[x]; if(n.op==OP_CONST) return; st.conc++;
  if(n.op==OP_PAIR) engErr("pair concretize");
  if(n.var!=255){ int v=n.var; BS a{{0,0,0,0}},b{{0,0,0,0}}; const u64*t=&pool[n.tbl]; val&=mask(n.bits); for(u8 i:live[v]) if(t[i]==val) a.set(i); else b.set(i);
    if(!a.get(cur.as[v])) engErr("concretize: value mismatch op "+to_string(n.op)+" bits "+to_string(n.bits)+" tbl "+to_string(t[cur.as[v]])+" val "+to_string(val));
    if(!b.any()){ st.implied++; verifyImplied(x,val); return; }
    restrictVar(v,a,b); return; }
  if(n.op==OP_CONCAT){ for(u32 i=0;i<n.b;i++){ u32 k=kids[n.a+i]; concretize(k,eval(k)); } return; }
  if(n.op==OP_ITE){ bool c=eval(n.c)&1; decide(n.c,c); concretize(c?n.a:n.b,val); return; }
  if(n.op==OP_ZEXT||n.op==OP_SEXT){ concretize(n.a,eval(n.a)); return; }
  decide(mk(OP_EQ,n.bits,1,x,mkConst(val,n.bits)),true);
}
static int distinctOnD(u32 x,int lim){ Node&n=N[x]; if(n.op==OP_CONST) return 1; if(n.var==255) return 9999; u64 seen[64]; int c=0; for(u8 i:live[n.var]){ u64 v=pool[n.tbl+i]; bool f=false; for(int j=0;j<c;j++) if(seen[j]==v){f=true;break;} if(!f){ if(c>=lim) return 9999; seen[c++]=v; } } return c; }

// ---------- memory ----------
static inline bool inArena(u64 p,u64 n){ return p-ARENA_BASE<ARENA_SIZE&&p-ARENA_BASE+n<=ARENA_SIZE; }
static inline u8*TA(u64 p){ return (u8*)(TAINT_BASE+(p-ARENA_BASE)); }
static inline u32*SHp(u64 p){ return (u32*)(SHADOW_BASE+4*(p-ARENA_BASE)); }
static vector<u64> dirtyPages; static vector<u8> pageDirty; // 4K pages of arena
static void setTaint(u64 p,u32 id){ *TA(p)=1; *SHp(p)=id; u64 pg=(p-ARENA_BASE)>>12; if(!pageDirty[pg]){ pageDirty[pg]=1; dirtyPages.push_back(pg);} }
static u32 ret0(u32 x){ if(constOnD(x)) return 0; return x; }
static u32 byteSh(u64 p){ // shadow of byte or 0
  if(!inArena(p,1)||!*TA(p)) return 0; u32 id=*SHp(p); if(constOnD(id)){ return 0; } if(eval(id)!=*(u8*)p){ *TA(p)=0; return 0; } return id; }
static u32 loadSh(u64 p,int n){
  u32 ch[16]; bool any=false; for(int i=0;i<n;i++){ u32 s=byteSh(p+i); if(s) any=true; ch[i]=s?s:mkConst(*(u8*)(p+i),8); }
  if(!any) return 0;
  if(n<=8) return ret0(mkConcat(ch,n));
  u32 lo=mkConcat(ch,8),hi=mkConcat(ch+8,n-8); if(n<16) hi=mk(OP_ZEXT,(n-8)*8,64,hi,0); Node d=blank(); d.op=OP_PAIR; d.bits=128; d.a=lo; d.b=hi; d.deps=N[lo].deps|N[hi].deps; return newNode(d);
}
static void clearTaint(u64 p,u64 n){ for(u64 i=0;i<n;i++) *TA(p+i)=0; }
static void storeSh(u64 p,int n,u32 v,u32 hi=0){
  if(!inArena(p,n)) { return; }
  if(!v){ clearTaint(p,n); return; }
  for(int i=0;i<n;i++){ u32 e; if(N[v].op==OP_PAIR) e=mkExtract(i<8?N[v].a:N[v].b,i&7); else if(i*8<N[v].bits) e=mkExtract(v,i); else e=mkConst(0,8); if(isC(e)) *TA(p+i)=0; else setTaint(p+i,e); }
}
static bool anyTaint(u64 p,u64 n){ u64 i=0; for(;i+8<=n;i+=8) if(*(u64*)TA(p+i)) return true; for(;i<n;i++) if(*TA(p+i)) return true; return false; }

EX u32 __s_args_dummy; 
static u32*ARGS,*RET;
EX u32 __s_bin(u32 opc,u32 sa,u32 sb,u64 a,u64 b){
  RT _r; int op=opc&255,ib=(opc>>8)&255,ob=(opc>>16)&255;
  if(sa&&constOnD(sa)) sa=0; if(sb&&constOnD(sb)) sb=0; if(!sa&&!sb) return 0;
  u32 x=sa?sa:mkConst(a,ib), y=sb?sb:mkConst(b,ib);
  if(sa&&sb&&nodeIsTab(x)&&nodeIsTab(y)&&N[x].var!=N[y].var&&(op==OP_ADD||op==OP_SUB||op==OP_MUL||op==OP_UMAX||op==OP_UMIN||op==OP_USUBSAT||op==OP_UADDO||op==OP_USUBO||(op>=OP_ULT&&op<=OP_SGE&&ib>8))){
    int dx=distinctOnD(x,8),dy=distinctOnD(y,8); if(dx<=dy&&dx<=8){ concretize(x,a); x=mkConst(a,ib); } else if(dy<=8){ concretize(y,b); y=mkConst(b,ib);} }
  u32 r=mk(op,ib,ob,x,y);
  return ret0(r);
}
EX u32 __s_select(u32 bits,u32 sc,u32 c,u32 sa,u32 sb,u64 a,u64 b){
  RT _r; if(constOnD(sc)) return c?sa:sb;
  u32 x=sa?sa:mkConst(a,bits), y=sb?sb:mkConst(b,bits); return ret0(mkIte(sc,x,y,bits)); }
EX u32 __s_load(const void*p,u32 n){ RT _r; if(!inArena((u64)p,n)) return 0; return loadSh((u64)p,n); }
EX void __s_store(void*p,u32 n,u32 v){ RT _r; if(!inArena((u64)p,n)){ if(v){ Node x=N[v]; if(x.op==OP_PAIR){ concretize(x.a,eval(x.a)); concretize(x.b,eval(x.b)); } else concretize(v,eval(v)); } return; } storeSh((u64)p,n,v); }
EX void __s_conc(u32 s,u64 v){ RT _r; if(N[s].op==OP_PAIR) engErr("conc pair"); concretize(s,v); }
EX void __si_concw_slow(u32 s){ RT _r; Node x=N[s]; if(x.op==OP_PAIR){ concretize(x.a,eval(x.a)); concretize(x.b,eval(x.b)); } else concretize(s,eval(s)); }
EX void __s_br(u32 s,u32 c){ RT _r; if((eval(s)&1)!=(c&1)) engErr("branch shadow mismatch op "+to_string(N[s].op)); decide(s,c&1); }
EX void __s_switch(u32 s,u64 v,const u64*cs,u32 n){ RT _r; 
  if(constOnD(s)) return; int ib=N[s].bits; 
  if(nodeIsTab(s)){ int var=N[s].var; u64 vals[256]; map<u64,u64> m; for(u32 i=0;i<n;i++) m[cs[2*i]&mask(ib)]=cs[2*i+1]; u64 mine=0; { auto it=m.find(v&mask(ib)); if(it!=m.end()) mine=it->second; }
    // successor index as a table; its definition for Z3 is an ITE chain over s
    K3 key{(u64)200|(u64)(uintptr_t)cs<<8,(u64)s}; auto it=opIntern.find(key); u32 idx;
    if(it!=opIntern.end()) idx=it->second; else {
      for(u32 i=0;i<varN[var];i++){ auto f=m.find(pool[N[s].tbl+i]); vals[i]=f==m.end()?0:f->second; }
      // build via ITE chain so that Z3 sees the comparison structure
      u32 e=mkConst(0,32); for(auto&[cv,id]:m) e=mkIte(mk(OP_EQ,ib,1,s,mkConst(cv,ib)),mkConst(id,32),e,32); idx=e; opIntern[key]=idx; (void)vals; }
    concretize(idx,mine); return; }
  // multi-variable: sequence of equality decisions
  u64 mv=v&mask(ib); for(u32 i=0;i<n;i++) { u64 cv=cs[2*i]&mask(ib); if(cv==mv){ decide(mk(OP_EQ,ib,1,s,mkConst(cv,ib)),true); return; } }
  for(u32 i=0;i<n;i++){ u32 q=mk(OP_EQ,ib,1,s,mkConst(cs[2*i]&mask(ib),ib)); decide(q,false); }
}
EX void __s_conc_mem(const void*p,u64 n){ RT _r; if(!inArena((u64)p,n)) return; for(u64 i=0;i<n;i++){ u32 s=byteSh((u64)p+i); if(s) concretize(s,*(u8*)((u64)p+i)); *TA((u64)p+i)=0; } }
EX void __s_memcpy(void*d,const void*s,u64 n){
  if(!n) return; u64 D=(u64)d,Sx=(u64)s; bool di=inArena(D,n),si=inArena(Sx,n); if(!di&&!si) return;
  bool ts=si&&anyTaint(Sx,n);
  if(!ts){ if(di&&anyTaint(D,n)) clearTaint(D,n); return; }
  RT _r; if(!di){ for(u64 i=0;i<n;i++){ u32 b=byteSh(Sx+i); if(b) concretize(b,*(u8*)(Sx+i)); } return; }
  // copy taint, memmove semantics
  vector<u32> tmp(n); for(u64 i=0;i<n;i++) tmp[i]=byteSh(Sx+i);
  for(u64 i=0;i<n;i++) if(tmp[i]) setTaint(D+i,tmp[i]); else *TA(D+i)=0;
}
EX void __s_memset(void*d,u32 v,u64 n){ if(!n) return; u64 D=(u64)d; if(!inArena(D,n)){ if(v){ RT _r; concretize(v,eval(v)); } return; }
  if(!v){ if(anyTaint(D,n)) memset(TA(D),0,n); return; } RT _r; u32 e=N[v].bits==8?v:mkExtract(v,0); if(isC(e)){ memset(TA(D),0,n); return;} for(u64 i=0;i<n;i++) setTaint(D+i,e); }
// symbolic address: read the table of all feasible cells
EX u32 __s_load_sym(u32 ps,const void*p,u32 n){
  RT _r; if(n>8||!nodeIsTab(ps)||constOnD(ps)){ if(!constOnD(ps)) concretize(ps,(u64)p); bool t=inArena((u64)p,n)&&anyTaint((u64)p,n); return t?loadSh((u64)p,n):0; }
  int v=N[ps].var; u64 vals[256]; memset(vals,0,sizeof vals); bool ok=true; u64 def=0; 
  for(u8 i:live[v]){ u64 a=pool[N[ps].tbl+i]; if(inArena(a,n)&&anyTaint(a,n)){ 
      // tainted cells: only same-variable tables
      u32 e=loadSh(a,n); if(e&&!(nodeIsTab(e)&&N[e].var==v)){ ok=false; break; }
      if(e){ vals[i]=pool[N[e].tbl+i]; continue; } }
    u64 x=0; memcpy(&x,(void*)a,n); vals[i]=x; def=x; }
  if(!ok){ concretize(ps,(u64)p); bool t=inArena((u64)p,n)&&anyTaint((u64)p,n); return t?loadSh((u64)p,n):0; }
  // don't-care entries get a feasible value
  for(u32 i=0;i<varN[v];i++) if(!cur.D[v].get(i)) vals[i]=vals[live[v][0]]; (void)def;
  u32 r=internTab(v,8*n,vals,OP_ROM,N[ps].bits,ps,0,0,0);
  return ret0(r);
}
EX u32 __si_wshift_slow(u32 shl,u32 s,u32 k,u32 bits,u64 lo,u64 hi){ RT _r; Node x=N[s]; u32 l=x.op==OP_PAIR?x.a:mkConst(lo,64),h=x.op==OP_PAIR?x.b:mkConst(hi,64); u32 nl,nh; u32 z=mkConst(0,64);
  auto sh=[&](int op,u32 v,u32 n){ return n>=64?z:mk(op,64,64,v,mkConst(n,64)); };
  if(!shl){ if(k>=64){ nl=sh(OP_LSHR,h,k-64); nh=z; } else if(k==0){nl=l;nh=h;} else { nl=mk(OP_OR,64,64,sh(OP_LSHR,l,k),sh(OP_SHL,h,64-k)); nh=sh(OP_LSHR,h,k);} }
  else { if(k>=64){ nh=sh(OP_SHL,l,k-64); nl=z; } else if(k==0){nl=l;nh=h;} else { nh=mk(OP_OR,64,64,sh(OP_SHL,h,k),sh(OP_LSHR,l,64-k)); nl=sh(OP_SHL,l,k);} }
  if(bits<128) nh=mk(OP_AND,64,64,nh,mkConst(mask(bits-64),64));
  if(constOnD(nl)&&constOnD(nh)) return 0; Node d=blank(); d.op=OP_PAIR; d.bits=128; d.a=nl; d.b=nh; d.deps=N[nl].deps|N[nh].deps; return newNode(d); }
EX u32 __si_wpair_slow(u32 s,u64 lo){ RT _r; (void)lo; Node d=blank(); d.op=OP_PAIR; d.bits=128; d.a=s; d.b=mkConst(0,64); d.deps=N[s].deps; return newNode(d); }
EX u32 __si_wlo_slow(u32 s){ RT _r; return ret0(N[s].a); }
EX u32 __si_wlogic_slow(u32 op,u32 s,u32 t,u64 al,u64 ah,u64 bl,u64 bh){ RT _r; u32 a0=s?N[s].a:mkConst(al,64),a1=s?N[s].b:mkConst(ah,64),b0=t?N[t].a:mkConst(bl,64),b1=t?N[t].b:mkConst(bh,64); u32 nl=mk(op,64,64,a0,b0),nh=mk(op,64,64,a1,b1); if(constOnD(nl)&&constOnD(nh)) return 0; Node d=blank(); d.op=OP_PAIR; d.bits=128; d.a=nl; d.b=nh; d.deps=N[nl].deps|N[nh].deps; return newNode(d); }
EX u32 __si_wcmp_slow(u32 op,u32 s,u32 t,u64 al,u64 ah,u64 bl,u64 bh){ RT _r; u32 a0=s?N[s].a:mkConst(al,64),a1=s?N[s].b:mkConst(ah,64),b0=t?N[t].a:mkConst(bl,64),b1=t?N[t].b:mkConst(bh,64); u32 e=mkAnd(mk(OP_EQ,64,1,a0,b0),mk(OP_EQ,64,1,a1,b1)); if(op==OP_NE) e=mkNot(e); return ret0(e); }

static map<string,u64> extCalls;
EX void __s_ext(const char*n){ extCalls[n]++; }
EX __attribute__((noreturn)) void __s_undef(const char*n){ engErr(string("call to undefined symbol ")+n); }

// ---------- libc models ----------
static u64 heapTop, heapMark;
static void*bump(u64 n,u64 al){ if(al<16) al=16; u64 p=heapTop+16; p=(p+al-1)&~(al-1); u64 e=p+n; if(e+STACK_SIZE+(1<<20)>ARENA_BASE+ARENA_SIZE){ fin(O_OOM); } ((u64*)p)[-1]=n; heapTop=(e+15)&~15ull; if(anyTaint(p,n)) memset(TA(p),0,n); return (void*)p; }
static void concArg(int i,u64 v){ if(ARGS[i]) concretize(ARGS[i],v); }
EX void* __s_x_malloc(u64 n){ RT _r; concArg(0,n); RET[0]=0; return bump(n,16); }
EX void* __s_x_calloc(u64 a,u64 b){ RT _r; concArg(0,a); concArg(1,b); RET[0]=0; void*p=bump(a*b,16); memset(p,0,a*b); return p; }
EX void __s_x_free(void*p){ (void)p; }
EX int __s_x_posix_memalign(void**o,u64 al,u64 n){ RT _r; concArg(1,al); concArg(2,n); RET[0]=0; *o=bump(n,al); if(inArena((u64)o,8)) clearTaint((u64)o,8); return 0; }
EX void* __s_x_aligned_alloc(u64 al,u64 n){ RT _r; concArg(0,al); concArg(1,n); RET[0]=0; return bump(n,al); }
EX void* __s_x_memalign(u64 al,u64 n){ return __s_x_aligned_alloc(al,n); }
EX void* __s_x_realloc(void*p,u64 n){ RT _r; concArg(0,(u64)p); concArg(1,n); RET[0]=0; if(!p) return bump(n,16); u64 old=((u64*)p)[-1]; u64 pe=((u64)p+old+15)&~15ull; if(pe==heapTop&&(u64)p>=heapMark){ u64 e=(u64)p+n; if(e+STACK_SIZE+(1<<20)>ARENA_BASE+ARENA_SIZE) fin(O_OOM); ((u64*)p)[-1]=n; heapTop=(e+15)&~15ull; return p; } void*q=bump(n,16); u64 m=min(old,n); memcpy(q,p,m); __s_memcpy(q,p,m); return q; }
EX void* __s_x_memcpy(void*d,const void*s,u64 n){ RT _r; concArg(0,(u64)d); concArg(1,(u64)s); concArg(2,n); RET[0]=0; __s_memcpy(d,s,n); return memmove(d,s,n); }
EX void* __s_x_memmove(void*d,const void*s,u64 n){ RT _r; concArg(0,(u64)d); concArg(1,(u64)s); concArg(2,n); RET[0]=0; __s_memcpy(d,s,n); return memmove(d,s,n); }
EX void* __s_x_memset(void*d,int v,u64 n){ RT _r; concArg(0,(u64)d); concArg(2,n); u32 vs=ARGS[1]; RET[0]=0; __s_memset(d,vs,n); return memset(d,v,n); }
static u32 byteNode(u64 p){ u32 s=byteSh(p); return s?s:mkConst(*(u8*)p,8); }
EX int __s_x_bcmp(const u8*a,const u8*b,u64 n){ RT _r; concArg(0,(u64)a); concArg(1,(u64)b); concArg(2,n); RET[0]=0; int r=memcmp(a,b,n)!=0; 
  bool ta=inArena((u64)a,n)&&anyTaint((u64)a,n),tb=inArena((u64)b,n)&&anyTaint((u64)b,n); if(!ta&&!tb) return r;
  u32 e=mkConst(1,1); for(u64 i=0;i<n;i++){ u32 q=mk(OP_EQ,8,1,byteNode((u64)a+i),byteNode((u64)b+i)); if(isC(q)){ if(!N[q].k) return r; continue; } e=mkAnd(e,q); }
  RET[0]=ret0(mkIte(e,mkConst(0,32),mkConst(1,32),32)); return r; }
EX int __s_x_memcmp(const u8*a,const u8*b,u64 n){ RT _r; concArg(0,(u64)a); concArg(1,(u64)b); concArg(2,n); RET[0]=0;
  bool ta=inArena((u64)a,n)&&anyTaint((u64)a,n),tb=inArena((u64)b,n)&&anyTaint((u64)b,n); if(!ta&&!tb) return memcmp(a,b,n);
  for(u64 i=0;i<n;i++){ u32 x=byteNode((u64)a+i),y=byteNode((u64)b+i); u32 q=mk(OP_EQ,8,1,x,y); bool eq=a[i]==b[i]; if(!isC(q)) decide(q,eq); if(!eq){ u32 d=mk(OP_SUB,32,32,mk(OP_ZEXT,8,32,x,0),mk(OP_ZEXT,8,32,y,0)); RET[0]=ret0(d); return (int)a[i]-(int)b[i]; } }
  return 0; }
EX u64 __s_x_strlen(const char*s){ RT _r; concArg(0,(u64)s); RET[0]=0; u64 n=strlen(s); __s_conc_mem(s,n+1); return n; }
EX long __s_x_write(int fd,const void*p,u64 n){ RET[0]=0; (void)fd;(void)p; return n; }

// ---------- harness interface ----------
static vector<vector<string>> varTok; static vector<string> varDesc;
static string curSpec;
EX u64 __s_x_spec(u8*p,u64 cap){ RT _r; RET[0]=0; u64 n=curSpec.size(); if(n>cap) return n; __s_memset(p,0,n); memcpy(p,curSpec.data(),n); return n; }
static int newVar(u32 n){
  int v=nvars++; if(v>=64) engErr("too many variables"); 
  if(varN[v]!=0&&varN[v]!=n) engErr("variable domain changed between runs"); varN[v]=n;
  if((int)cur.D.size()<=v){ BS b{{0,0,0,0}}; for(u32 i=0;i<n;i++) b.set(i); cur.D.push_back(b); cur.as.push_back(b.first()); }
  setD(v,cur.D[v]); return v; }
static u32 varNode(int v){ u64 vals[256]; for(u32 i=0;i<varN[v];i++) vals[i]=i; return internTab(v,8,vals,OP_VAR,8,0,0,0,0); }
static u32 litTab(int v,const u64*vals,int bits){ u32 n=varN[v]; bool aff=bits==8; for(u32 i=1;i<n&&aff;i++) if(vals[i]!=((vals[0]+i)&255)) aff=false; if(aff&&n>1) return mk(OP_ADD,8,8,varNode(v),mkConst(vals[0],8)); varNode(v); return internTab(v,bits,vals,OP_ROM,8,0,0,0,0); }
EX void __s_x_hole(u8*p,u64 width,u64 ntok,const u8*toks){ RT _r; int v=newVar(ntok); if((int)varTok.size()<=v) varTok.resize(v+1); if(varTok[v].empty()) for(u64 i=0;i<ntok;i++) varTok[v].push_back(string((const char*)toks+i*width,width));
  for(u64 j=0;j<width;j++){ p[j]=toks[cur.as[v]*width+j]; if(ntok>1){ u64 vals[256]; for(u64 i=0;i<ntok;i++) vals[i]=toks[i*width+j]; u32 e=litTab(v,vals,8); if(isC(e)) *TA((u64)p+j)=0; else setTaint((u64)p+j,e); } } }
EX u64 __s_x_choice(u64 n){ RT _r; int v=newVar(n); if((int)varTok.size()<=v) varTok.resize(v+1); u64 r=cur.as[v]; u64 vals[256]; for(u64 i=0;i<n;i++) vals[i]=i; u32 e=litTab(v,vals,64); RET[0]=ret0(e); return r; }
EX void __s_x_assert(u8 c,u32 id){ RT _r; st.asserts++; u32 s=ARGS[0]; if(s) { if(N[s].bits==8) s=mk(OP_NE,8,1,s,mkConst(0,8)); } if(s&&!isC(s)) decide(s,c&1); if(!(c&1)){ outId=id; fin(O_VIOL); } }
EX void __s_x_assume(u8 c){ RT _r; u32 s=ARGS[0]; if(s){ if(N[s].bits==8) s=mk(OP_NE,8,1,s,mkConst(0,8)); if(!isC(s)) decide(s,c&1); } if(!(c&1)) fin(O_ASSUME); }
static map<u32,u64> reachCnt; static u64 symReach;
EX void __s_x_reach(u32 id){ reachCnt[id]++; }
EX u8 __s_x_symbolic(void){ RET[0]=0; return 1; }
static string lastNote; EX void __s_x_note(const char*p,u64 n){ lastNote.assign(p,n); }
struct RLoc{ const char*f; u64 fl; u32 line,col; };
EX void __s_x_panic_at(const RLoc*l){ RT _r; string f(l->f,l->fl); if(!f.empty()&&f.back()=='\0') f.pop_back(); outMsg="panic at "+f+":"+to_string(l->line)+":"+to_string(l->col); fin(O_PANIC); }
EX void __s_x_panic_fmt(void*,void*,const RLoc*l){ __s_x_panic_at(l); }
EX void __s_x_panic_nounwind(void*,void*,u8,const RLoc*l){ __s_x_panic_at(l); }
EX void __s_x_panic_any(void){ outMsg="panic"; fin(O_PANIC); }
EX void __s_x_abort(void){ outMsg="abort"; fin(O_PANIC); }

// ---------- running ----------
static vector<u8> snapHeap; struct Seg{ u8*p; u64 n; vector<u8> s; }; static vector<Seg> segs;
static void*so; static void(*fnEntry)(void); static void(*fnWarm)(void);
static ucontext_t mainC,runC; static int rMode;
static void tramp(){ if(rMode==0) fnWarm(); else fnEntry(); fin(O_OK); }
static void onsig(int s,siginfo_t*si,void*){ if(!inRun) { signal(s,SIG_DFL); raise(s); return; }
  if(s==SIGVTALRM){ if(inRT){ tmo=1; return;} sigset_t q; sigemptyset(&q); sigaddset(&q,s); sigprocmask(SIG_UNBLOCK,&q,0); fin(O_TIMEOUT);} 
  sigset_t q; sigemptyset(&q); sigaddset(&q,s); sigprocmask(SIG_UNBLOCK,&q,0); char b[100]; snprintf(b,100,"signal %d addr %p inRT=%d",s,si->si_addr,inRT); outMsg=b; fin(O_CRASH); }
static int runOnce(int mode,double limit){
  rMode=mode; nvars=0; inRT=0; tmo=0; outMsg.clear(); evalStamp++; memset(ARGS,0,256); memset(RET,0,256);
  itimerval it{}; it.it_value.tv_sec=(long)limit; it.it_value.tv_usec=(limit-(long)limit)*1e6; setitimer(ITIMER_VIRTUAL,&it,0);
  int o=setjmp(topjb);
  if(o==0){ getcontext(&runC); runC.uc_stack.ss_sp=(void*)(ARENA_BASE+ARENA_SIZE-STACK_SIZE+4096); runC.uc_stack.ss_size=STACK_SIZE-8192; runC.uc_link=0; makecontext(&runC,tramp,0); inRun=1; setcontext(&runC); }
  inRun=0; itimerval z{}; setitimer(ITIMER_VIRTUAL,&z,0); return o; }
static void snapshot(){ heapMark=heapTop; snapHeap.assign((u8*)ARENA_BASE,(u8*)heapTop); for(auto&s:segs) s.s.assign(s.p,s.p+s.n); }
static void restore(){ memcpy((u8*)ARENA_BASE,snapHeap.data(),snapHeap.size()); heapTop=heapMark; for(auto&s:segs) memcpy(s.p,s.s.data(),s.n);
  for(u64 pg:dirtyPages){ memset((u8*)(TAINT_BASE+(pg<<12)),0,4096); pageDirty[pg]=0; } dirtyPages.clear(); }
static int phcb(dl_phdr_info*i,size_t,void*nm){ if(!strstr(i->dlpi_name,(const char*)nm)) return 0; for(int k=0;k<i->dlpi_phnum;k++){ auto&p=i->dlpi_phdr[k]; if(p.p_type==PT_LOAD&&(p.p_flags&PF_W)){ Seg s; s.p=(u8*)(i->dlpi_addr+p.p_vaddr); s.n=p.p_memsz; segs.push_back(s);} } return 0; }
static void resetJob(){ zreset(); N.clear(); pool.clear(); kids.clear(); tabIntern.clear(); opIntern.clear(); constIntern.clear(); catIntern.clear(); implMemo.clear(); N.push_back(blank()); queue_.clear(); cur=Work(); memset(varN,0,sizeof varN); varTok.clear(); }
static string jesc(const string&s){ string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if(c<32||c>=127){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
struct Job{ string spec; };
int main(int argc,char**argv){
  string sof,jobf,outf; int W=8; double runLimit=10,jobLimit=1e9,deadline=1e18; u64 maxViol=20; u64 maxRuns=~0ull; bool verbose=false;
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{return string(argv[++i]);}; if(a=="--so") sof=nx(); else if(a=="--jobs") jobf=nx(); else if(a=="--out") outf=nx(); else if(a=="-j") W=atoi(argv[++i]); else if(a=="--run-limit") runLimit=atof(argv[++i]); else if(a=="--job-limit") jobLimit=atof(argv[++i]); else if(a=="--deadline") deadline=now()+atof(argv[++i]); else if(a=="--max-viol") maxViol=atoll(argv[++i]); else if(a=="--max-runs") maxRuns=atoll(argv[++i]); else if(a=="-v") verbose=true; }
  if(mmap((void*)ARENA_BASE,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)==MAP_FAILED||mmap((void*)TAINT_BASE,ARENA_SIZE+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)==MAP_FAILED||mmap((void*)SHADOW_BASE,ARENA_SIZE*4+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)==MAP_FAILED){ perror("mmap"); return 2; }
  mprotect((void*)(ARENA_BASE+ARENA_SIZE-STACK_SIZE),4096,PROT_NONE);
  pageDirty.resize(ARENA_SIZE>>12); heapTop=ARENA_BASE+4096;
  so=dlopen(sof.c_str(),RTLD_NOW|RTLD_LOCAL); if(!so){ fprintf(stderr,"%s\n",dlerror()); return 2; }
  ARGS=(u32*)dlsym(so,"__s_args_p"); RET=(u32*)dlsym(so,"__s_ret_p"); if(!ARGS||!RET){ fprintf(stderr,"no args\n"); return 2; } ARGS=*(u32**)ARGS; RET=*(u32**)RET;
  fnEntry=(void(*)(void))dlsym(so,"hsym_entry"); fnWarm=(void(*)(void))dlsym(so,"hsym_warmup");
  { string base=sof.substr(sof.rfind('/')==string::npos?0:sof.rfind('/')+1); dl_iterate_phdr(phcb,(void*)base.c_str()); }
  stack_t ss{}; ss.ss_size=1<<20; ss.ss_sp=malloc(ss.ss_size); sigaltstack(&ss,0); struct sigaction sa{}; sa.sa_sigaction=onsig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGTRAP,SIGABRT,SIGVTALRM}) sigaction(s,&sa,0);
  N.reserve(1<<20); resetJob();
  int o=runOnce(0,120); if(o!=O_OK){ fprintf(stderr,"warmup failed %d %s\n",o,outMsg.c_str()); return 2; }
  snapshot(); if(verbose) fprintf(stderr,"snapshot heap %zu KB segs %zu\n",snapHeap.size()/1024,segs.size()?segs[0].n/1024:0);
  vector<Job> jobs; { FILE*f=fopen(jobf.c_str(),"r"); if(!f){perror("jobs");return 2;} string b; int c; while((c=fgetc(f))!=EOF){ if(c==0){ jobs.push_back({b}); b.clear(); } else b+=(char)c; } fclose(f); }
  struct Shared{ u32 next; int active; u64 viol[65536]; u64 runs[65536]; }; volatile Shared*sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  if(jobs.size()>65536){ fprintf(stderr,"too many jobs\n"); return 2; }
  prctl(PR_SET_CHILD_SUBREAPER,1); int wid=-1; sh->active=W;
  for(int w=0;w<W;w++){ pid_t p=fork(); if(p==0){ wid=w; break; } if(p<0){ perror("fork"); return 2; } }
  if(wid<0){ int bad=0,s; pid_t p; while((p=waitpid(-1,&s,0))>0||errno==EINTR) if(p>0&&s) bad=1; return bad?2:0; }
  FILE*out=fopen((outf+"."+to_string(getpid())).c_str(),"w"); bool forked=false;
  while(true){ u32 j; if(forked) break; j=__sync_fetch_and_add(&sh->next,1); if(j>=jobs.size()) break; Job J=jobs[j]; double t0=now();
    memset((void*)&st,0,sizeof st); reachCnt.clear(); extCalls.clear(); incomplete=false; resetJob(); curSpec=J.spec; u64 nviol=0,cnt[16]={0}; u64 vars=0; string sample,sampleAs; bool first=true; u64 symPaths=0; double tFork=now(); 
    queue_.push_back(Work()); u64 maxNodes=0; bool aborted=false; u64 cover=0; double total=0,covered=0; (void)cover;
    bool hasM=false;
    while(!queue_.empty()){
      if(now()>deadline||now()-t0>jobLimit||sh->runs[j]>=maxRuns||sh->viol[j]>=maxViol){ aborted=true; break; }
      if(queue_.size()>=8&&(st.runs&7)==7&&now()-tFork>0.03&&sh->next>=jobs.size()&&sh->active<W){ // an idle slot: give half of the queue to a forked helper
        if(__sync_fetch_and_add(&sh->active,1)>=W) __sync_fetch_and_sub(&sh->active,1);
        else { flushV(); fflush(out); tFork=now(); vector<Work> mine,other; for(size_t q=0;q<queue_.size();q++) (q&1?other:mine).push_back(move(queue_[q]));
          pid_t p=fork(); if(p==0){ queue_=move(other); forked=true; t0=now(); out=fopen((outf+"."+to_string(getpid())).c_str(),"w"); memset((void*)&st,0,sizeof st); memset(cnt,0,sizeof cnt); reachCnt.clear(); extCalls.clear(); nviol=0; symPaths=0; covered=0; first=true; sample.clear(); }
          else { queue_=move(mine); if(p<0){ for(auto&w:other) queue_.push_back(move(w)); __sync_fetch_and_sub(&sh->active,1); } } } }
      cur=move(queue_.back()); queue_.pop_back();
      for(size_t v=0;v<cur.D.size();v++) if(varN[v]) setD(v,cur.D[v]);
      restore(); lastNote.clear(); int o=runOnce(1,runLimit); st.runs++; __sync_fetch_and_add(&sh->runs[j],1); if(pendV.size()>=512) flushV(); if(o<16) cnt[o]++; vars=max<u64>(vars,nvars); maxNodes=max<u64>(maxNodes,N.size());
      if(cur.M.size()) hasM=true; 
      { double p=1; int tot=cur.D.size(); for(int v=0;v<tot;v++) p*=cur.D[v].count(); for(size_t v=tot;v<(size_t)0;v++); covered+=p; if(p>1) symPaths++; (void)total; }
      if(o==O_OK&&first){ sample=lastNote; first=false; sampleAs.clear(); for(int v=0;v<nvars;v++){ if(v) sampleAs+=","; sampleAs+=to_string(cur.as[v]); } }
      if(o==O_VIOL||o==O_PANIC||o==O_TIMEOUT||o==O_CRASH||o==O_OOM||o==O_ERR){ nviol++; __sync_fetch_and_add(&sh->viol[j],1); fprintf(out,"{\"kind\":\"viol\",\"j\":%u,\"outcome\":%d,\"id\":%u,\"msg\":\"%s\",\"note\":\"%s\",\"as\":[",j,o,o==O_VIOL?outId:0,jesc(outMsg).c_str(),jesc(lastNote).c_str()); for(int v=0;v<nvars;v++) fprintf(out,"%s%d",v?",":"",cur.as[v]); fprintf(out,"],\"vals\":["); for(int v=0;v<nvars;v++){ string s=v<(int)varTok.size()&&cur.as[v]<varTok[v].size()?varTok[v][cur.as[v]]:to_string(cur.as[v]); fprintf(out,"%s\"%s\"",v?",":"",jesc(s).c_str()); } fprintf(out,"]}\n"); }
      if(verbose&&st.runs%1000==0) fprintf(stderr,"job %u: runs %lu queue %zu nodes %zu pool %zu z3 %lu %.2fs t=%.1f\n",j,st.runs,queue_.size(),N.size(),pool.size(),st.z3q,st.z3t,now()-t0);
      if(pool.size()>400000000ull||N.size()>12000000){ aborted=true; break; }
    }
    flushV(); if(!verifyErr.empty()){ fprintf(out,"{\"kind\":\"viol\",\"j\":%u,\"outcome\":8,\"id\":0,\"msg\":\"%s\",\"note\":\"\",\"as\":[],\"vals\":[]}\n",j,jesc(verifyErr).c_str()); verifyErr.clear(); cnt[O_ERR]++; }
    double dom=1; for(int v=0;v<(int)64&&varN[v];v++) dom*=varN[v];
    fprintf(out,"{\"kind\":\"job\",\"j\":%u,\"runs\":%lu,\"ok\":%lu,\"assumed\":%lu,\"viol\":%lu,\"panic\":%lu,\"timeout\":%lu,\"crash\":%lu,\"oom\":%lu,\"err\":%lu,\"splits\":%lu,\"implied\":%lu,\"z3q\":%lu,\"z3sat\":%lu,\"z3unsat\":%lu,\"z3unknown\":%lu,\"z3t\":%.4f,\"slow\":%lu,\"asserts\":%lu,\"conc\":%lu,\"multi\":%lu,\"vbatch\":%lu,\"vclaims\":%lu,\"sympaths\":%lu,\"vars\":%lu,\"domain\":%.0f,\"covered\":%.0f,\"hasM\":%d,\"nodes\":%lu,\"complete\":%s,\"t\":%.3f,\"sample\":\"%s\",\"sas\":\"%s\",\"reach\":{",j,st.runs,cnt[O_OK],cnt[O_ASSUME],cnt[O_VIOL],cnt[O_PANIC],cnt[O_TIMEOUT],cnt[O_CRASH],cnt[O_OOM],cnt[O_ERR],st.splits,st.implied,st.z3q,st.z3sat,st.z3unsat,st.z3unknown,st.z3t,st.slow,st.asserts,st.conc,st.multi,st.vbatch,st.vclaims,symPaths,vars,dom,covered,(int)hasM,maxNodes,(aborted||incomplete)?"false":"true",now()-t0,jesc(sample).c_str(),sampleAs.c_str());
    bool f=true; for(auto&[k,n]:reachCnt){ fprintf(out,"%s\"%u\":%lu",f?"":",",k,n); f=false; } fprintf(out,"},\"ext\":{"); f=true; for(auto&[k,n]:extCalls){ fprintf(out,"%s\"%s\":%lu",f?"":",",k.c_str(),n); f=false; } fprintf(out,"}}\n"); fflush(out);
  }
  fclose(out); __sync_fetch_and_sub(&sh->active,1); _exit(0);
}
