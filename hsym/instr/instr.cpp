// hsym instrumenter: LLVM bitcode -> optimise -> insert symbolic shadow
// propagation -> optimise -> object file.  Uses only the LLVM C API of the
// libLLVM shipped with the Rust toolchain.
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/BitWriter.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Linker.h>
#include <llvm-c/Analysis.h>
#include <llvm-c/Target.h>
#include <llvm-c/TargetMachine.h>
#include <llvm-c/Transforms/PassBuilder.h>
#include <llvm-c/Comdat.h>
#include <unistd.h>
#include <sys/wait.h>
#include <ctime>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <fstream>
#include "../rt/layout.h"
extern "C" LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef, unsigned);
using namespace std;
typedef LLVMValueRef V; typedef LLVMTypeRef Ty; typedef LLVMBasicBlockRef BB;
static LLVMContextRef C; static LLVMModuleRef M; static LLVMBuilderRef B; static LLVMTargetDataRef TD;
static Ty I1,I8,I32,I64,PTR,VOID;
static map<string,long> warns;
static void die(const string&s){ fprintf(stderr,"instr: %s\n",s.c_str()); exit(2); }
static void warn(const string&s){ warns[s]++; }
static string nameOf(V v){ size_t n; const char*p=LLVMGetValueName2(v,&n); return string(p,n); }
static V c32(unsigned x){ return LLVMConstInt(I32,x,0); }
static V c64(unsigned long long x){ return LLVMConstInt(I64,x,0); }
static bool isZ(V s){ return LLVMIsConstant(s)&&LLVMIsNull(s); }

struct Helper{ V f; Ty t; };
static map<string,Helper> helpers;
static V argsG,retG; static Ty argsT;

static Ty shT(Ty t){
  switch(LLVMGetTypeKind(t)){
    case LLVMStructTypeKind:{ unsigned n=LLVMCountStructElementTypes(t); vector<Ty> e; for(unsigned i=0;i<n;i++) e.push_back(shT(LLVMStructGetTypeAtIndex(t,i))); return LLVMStructTypeInContext(C,e.data(),n,0);}
    case LLVMArrayTypeKind: return LLVMArrayType2(shT(LLVMGetElementType(t)),LLVMGetArrayLength2(t));
    default: return I32;
  }
}
static bool isInt(Ty t){ return LLVMGetTypeKind(t)==LLVMIntegerTypeKind; }
static bool isPtr(Ty t){ return LLVMGetTypeKind(t)==LLVMPointerTypeKind; }
static bool isAgg(Ty t){ auto k=LLVMGetTypeKind(t); return k==LLVMStructTypeKind||k==LLVMArrayTypeKind; }
static unsigned bits(Ty t){ if(isPtr(t)) return 64; if(isInt(t)) return LLVMGetIntTypeWidth(t); return 0; }
// scalar that we can track as one node (<=64 bits)
static bool scal(Ty t){ unsigned b=bits(t); return b>0&&b<=64; }
static bool wide(Ty t){ unsigned b=bits(t); return b>64&&b<=128; }
static unsigned storeSize(Ty t){ return (unsigned)LLVMStoreSizeOfType(TD,t); }

static V call(const char*n, vector<V> a, const char*nm=""){
  auto it=helpers.find(n); if(it==helpers.end()) die(string("no helper ")+n);
  return LLVMBuildCall2(B,it->second.t,it->second.f,a.data(),a.size(),nm);
}
static unordered_map<V,V> SH;
static V zeroSh(Ty t){ return LLVMConstNull(shT(t)); }
static V sh(V v){
  auto it=SH.find(v); if(it!=SH.end()) return it->second;
  return zeroSh(LLVMTypeOf(v));
}
static V to64(V v){ Ty t=LLVMTypeOf(v); if(isPtr(t)) return LLVMBuildPtrToInt(B,v,I64,""); if(isInt(t)){unsigned b=bits(t); if(b<64) return LLVMBuildZExt(B,v,I64,""); if(b==64) return v; return LLVMBuildTrunc(B,v,I64,"");} die("to64"); return 0; }
static V hi64(V v){ Ty t=LLVMTypeOf(v); V s=LLVMBuildLShr(B,v,LLVMConstInt(t,64,0),""); return LLVMBuildTrunc(B,s,I64,""); }
static V bin(unsigned op,unsigned inb,unsigned outb,V sa,V sb,V a,V b){
  if(isZ(sa)&&isZ(sb)) return c32(0);
  return call("__si_bin",{c32(op|inb<<8|outb<<16),sa,sb,to64(a),to64(b)});
}
// concretise a value of any type (fork over its values)
static void concV(V s,V v){
  Ty t=LLVMTypeOf(v);
  if(isZ(s)) return;
  if(scal(t)) call("__si_conc",{s,to64(v)});
  else if(wide(t)){ call("__si_concw",{s,to64(v),hi64(v)}); }
  else if(isAgg(t)){ unsigned n=LLVMGetTypeKind(t)==LLVMStructTypeKind?LLVMCountStructElementTypes(t):LLVMGetArrayLength2(t);
    for(unsigned i=0;i<n;i++) concV(LLVMBuildExtractValue(B,s,i,""),LLVMBuildExtractValue(B,v,i,"")); }
  // floats / vectors never carry shadows
}
static void concOp(V v){ concV(sh(v),v); }

static unsigned slotCount(Ty t){ if(isAgg(t)){ unsigned n=LLVMGetTypeKind(t)==LLVMStructTypeKind?LLVMCountStructElementTypes(t):LLVMGetArrayLength2(t); unsigned r=0; for(unsigned i=0;i<n;i++) r+=slotCount(LLVMGetTypeKind(t)==LLVMStructTypeKind?LLVMStructGetTypeAtIndex(t,i):LLVMGetElementType(t)); return r;} return 1; }
static V slotPtr(V g,unsigned i){ V idx[2]={c64(0),c64(i)}; return LLVMConstInBoundsGEP2(argsT,g,idx,2); }
static void storeSlots(V g,unsigned&i,Ty t,V s){
  if(isAgg(t)){ unsigned n=LLVMGetTypeKind(t)==LLVMStructTypeKind?LLVMCountStructElementTypes(t):LLVMGetArrayLength2(t);
    for(unsigned k=0;k<n;k++) storeSlots(g,i,LLVMGetTypeKind(t)==LLVMStructTypeKind?LLVMStructGetTypeAtIndex(t,k):LLVMGetElementType(t), isZ(s)?zeroSh(LLVMGetTypeKind(t)==LLVMStructTypeKind?LLVMStructGetTypeAtIndex(t,k):LLVMGetElementType(t)):LLVMBuildExtractValue(B,s,k,"")); return; }
  if(i>=64) die("too many slots");
  LLVMBuildStore(B,s,slotPtr(g,i)); i++;
}
static V loadSlots(V g,unsigned&i,Ty t){
  if(isAgg(t)){ unsigned n=LLVMGetTypeKind(t)==LLVMStructTypeKind?LLVMCountStructElementTypes(t):LLVMGetArrayLength2(t); V r=LLVMGetUndef(shT(t)); if(n==0) return LLVMConstNull(shT(t));
    for(unsigned k=0;k<n;k++) r=LLVMBuildInsertValue(B,r,loadSlots(g,i,LLVMGetTypeKind(t)==LLVMStructTypeKind?LLVMStructGetTypeAtIndex(t,k):LLVMGetElementType(t)),k,""); return r; }
  V r=LLVMBuildLoad2(B,I32,slotPtr(g,i),""); i++; return r;
}
static bool canTrack(Ty t){ // any scalar slot inside worth passing
  if(isAgg(t)) return slotCount(t)<=16; return scal(t)||wide(t); }

static void setSh(V v,V s){ SH[v]=s; }

static unsigned icmpOp(LLVMIntPredicate p){ switch(p){case LLVMIntEQ:return OP_EQ;case LLVMIntNE:return OP_NE;case LLVMIntUGT:return OP_UGT;case LLVMIntUGE:return OP_UGE;case LLVMIntULT:return OP_ULT;case LLVMIntULE:return OP_ULE;case LLVMIntSGT:return OP_SGT;case LLVMIntSGE:return OP_SGE;case LLVMIntSLT:return OP_SLT;case LLVMIntSLE:return OP_SLE;} return 0; }

static V doLoad(V ptr,Ty t){
  V ps=sh(ptr); unsigned n=storeSize(t);
  if(scal(t)){
    V r;
    if(n==1) r=call("__si_load1",{ps,ptr}); else if(n==2) r=call("__si_load2",{ps,ptr}); else if(n==4) r=call("__si_load4",{ps,ptr}); else if(n==8) r=call("__si_load8",{ps,ptr});
    else r=call("__si_loadn",{ps,ptr,c32(n)});
    unsigned b=bits(t);
    if(b!=n*8){ // i1, i24 ...: truncate
      V nv=LLVMBuildLoad2(B,LLVMIntTypeInContext(C,n*8),ptr,""); r=bin(OP_TRUNC,n*8,b,r,c32(0),nv,c64(0)); }
    return r;
  }
  if(wide(t)) return call("__si_loadn",{ps,ptr,c32(n)});
  // aggregates, vectors, floats, huge ints
  if(isAgg(t)){ Ty st=shT(t); unsigned cnt=LLVMGetTypeKind(t)==LLVMStructTypeKind?LLVMCountStructElementTypes(t):LLVMGetArrayLength2(t); V r=LLVMGetUndef(st); if(!cnt) return LLVMConstNull(st);
    V saved=ps; if(!isZ(ps)) { concOp(ptr); }
    for(unsigned k=0;k<cnt;k++){ V idx[2]={c32(0),c32(k)}; V ep=LLVMBuildInBoundsGEP2(B,t,ptr,idx,2,""); Ty et=LLVMGetTypeKind(t)==LLVMStructTypeKind?LLVMStructGetTypeAtIndex(t,k):LLVMGetElementType(t); r=LLVMBuildInsertValue(B,r,doLoad(ep,et),k,""); }
    (void)saved; return r; }
  call("__si_concmem",{ps,ptr,c64(n)});
  return zeroSh(t);
}
static void doStore(V ptr,V v,V s){
  V ps=sh(ptr); Ty t=LLVMTypeOf(v); unsigned n=storeSize(t);
  if(scal(t)){
    unsigned b=bits(t); if(b!=n*8) s=bin(OP_ZEXT,b,n*8,s,c32(0),v,c64(0));
    if(n==1) call("__si_store1",{ps,s,ptr}); else if(n==2) call("__si_store2",{ps,s,ptr}); else if(n==4) call("__si_store4",{ps,s,ptr}); else if(n==8) call("__si_store8",{ps,s,ptr});
    else call("__si_storen",{ps,s,ptr,c32(n)});
    return; }
  if(wide(t)){ call("__si_storen",{ps,s,ptr,c32(n)}); return; }
  if(isAgg(t)){ if(!isZ(ps)) concOp(ptr); unsigned cnt=LLVMGetTypeKind(t)==LLVMStructTypeKind?LLVMCountStructElementTypes(t):LLVMGetArrayLength2(t);
    // clear all (padding), then store fields
    call("__si_memset",{c32(0),c32(0),c32(0),ptr,c64(n)});
    for(unsigned k=0;k<cnt;k++){ V idx[2]={c32(0),c32(k)}; V ep=LLVMBuildInBoundsGEP2(B,t,ptr,idx,2,""); doStore(ep,LLVMBuildExtractValue(B,v,k,""),isZ(s)?zeroSh(LLVMTypeOf(LLVMBuildExtractValue(B,v,k,""))):LLVMBuildExtractValue(B,s,k,"")); }
    return; }
  if(n<=16) call("__si_storen",{ps,c32(0),ptr,c32(n)}); else call("__si_memset",{ps,c32(0),c32(0),ptr,c64(n)});
}
static V doGEP(V I){
  unsigned no=LLVMGetNumOperands(I); V base=LLVMGetOperand(I,0);
  if(LLVMGetTypeKind(LLVMTypeOf(I))==LLVMVectorTypeKind){ for(unsigned i=0;i<no;i++) if(LLVMGetTypeKind(LLVMTypeOf(LLVMGetOperand(I,i)))!=LLVMVectorTypeKind) concOp(LLVMGetOperand(I,i)); return zeroSh(LLVMTypeOf(I)); }
  bool any=false; for(unsigned i=0;i<no;i++) if(!isZ(sh(LLVMGetOperand(I,i)))) any=true;
  if(!any) return c32(0);
  V cs=sh(base); V cur=LLVMBuildPtrToInt(B,base,I64,""); unsigned long long cofs=0; Ty t=LLVMGetGEPSourceElementType(I);
  for(unsigned i=1;i<no;i++){
    V ix=LLVMGetOperand(I,i);
    if(i>1&&LLVMGetTypeKind(t)==LLVMStructTypeKind){ unsigned k=LLVMConstIntGetZExtValue(ix); cofs+=LLVMOffsetOfElement(TD,t,k); t=LLVMStructGetTypeAtIndex(t,k); continue; }
    if(i>1) t=LLVMGetElementType(t);
    unsigned long long sz=LLVMABISizeOfType(TD,t);
    if(LLVMIsAConstantInt(ix)){ cofs+=sz*(unsigned long long)LLVMConstIntGetSExtValue(ix); continue; }
    V si=sh(ix); V x=ix; unsigned b=bits(LLVMTypeOf(ix));
    if(b<64){ V y=LLVMBuildSExt(B,x,I64,""); si=bin(OP_SEXT,b,64,si,c32(0),x,c64(0)); x=y; }
    else if(b>64) { concOp(ix); x=LLVMBuildTrunc(B,x,I64,""); si=c32(0); }
    if(sz!=1){ V y=LLVMBuildMul(B,x,c64(sz),""); si=bin(OP_MUL,64,64,si,c32(0),x,c64(sz)); x=y; }
    V nc=LLVMBuildAdd(B,cur,x,""); cs=bin(OP_ADD,64,64,cs,si,cur,x); cur=nc;
  }
  if(cofs){ cs=bin(OP_ADD,64,64,cs,c32(0),cur,c64(cofs)); }
  return cs;
}
static void concAllOps(V I){ unsigned n=LLVMGetNumOperands(I); for(unsigned i=0;i<n;i++){ V o=LLVMGetOperand(I,i); if(!o||LLVMValueIsBasicBlock(o)) continue; if(LLVMIsAConstant(o)) continue; auto k=LLVMGetTypeKind(LLVMTypeOf(o)); if(k==LLVMMetadataTypeKind||k==LLVMTokenTypeKind||k==LLVMLabelTypeKind) continue; concOp(o);} }

static const set<string> XREPL={"memcpy","memmove","memset","memcmp","bcmp","strlen","malloc","calloc","realloc","free","posix_memalign","aligned_alloc","memalign"};
static set<string> extSeen;

static void concArgs(V I,unsigned na){ for(unsigned i=0;i<na;i++){ V o=LLVMGetOperand(I,i); if(LLVMIsAConstant(o)) continue; auto k=LLVMGetTypeKind(LLVMTypeOf(o)); if(k==LLVMMetadataTypeKind||k==LLVMTokenTypeKind) continue; concOp(o);} }

static bool starts(const string&s,const char*p){ return s.compare(0,strlen(p),p)==0; }

static void doCall(V I){
  V callee=LLVMGetCalledValue(I); unsigned na=LLVMGetNumArgOperands(I); Ty rt=LLVMTypeOf(I); bool isvoid=LLVMGetTypeKind(rt)==LLVMVoidTypeKind;
  if(LLVMIsAInlineAsm(callee)){ concArgs(I,na); warn("inline asm"); if(!isvoid) setSh(I,zeroSh(rt)); return; }
  string n; V F=LLVMIsAFunction(callee); if(F) n=nameOf(F);
  if(F&&starts(n,"llvm.")){
    auto A=[&](unsigned i){return LLVMGetOperand(I,i);};
    if(starts(n,"llvm.memcpy")||starts(n,"llvm.memmove")){
      V len=A(2); if(bits(LLVMTypeOf(len))<64) len=LLVMBuildZExt(B,len,I64,"");
      call("__si_memcpy",{sh(A(0)),sh(A(1)),sh(A(2)),A(0),A(1),len}); return; }
    if(starts(n,"llvm.memset")){ V len=A(2); if(bits(LLVMTypeOf(len))<64) len=LLVMBuildZExt(B,len,I64,""); call("__si_memset",{sh(A(0)),sh(A(1)),sh(A(2)),A(0),len}); return; }
    if(starts(n,"llvm.lifetime")||starts(n,"llvm.dbg")||starts(n,"llvm.assume")||starts(n,"llvm.experimental.noalias")||starts(n,"llvm.donothing")||starts(n,"llvm.prefetch")||starts(n,"llvm.invariant")||starts(n,"llvm.trap")||starts(n,"llvm.pseudoprobe")) { if(!isvoid) setSh(I,zeroSh(rt)); return; }
    if(starts(n,"llvm.expect")){ setSh(I,sh(A(0))); return; }
    if(starts(n,"llvm.threadlocal.address")||starts(n,"llvm.launder.invariant")||starts(n,"llvm.strip.invariant")){ setSh(I,sh(A(0))); return; }
    if(scal(rt)&&na>=1&&scal(LLVMTypeOf(A(0)))){
      unsigned b=bits(LLVMTypeOf(A(0))),ob=bits(rt);
      struct{const char*p;unsigned op;} T1[]={{"llvm.umin.",OP_UMIN},{"llvm.umax.",OP_UMAX},{"llvm.smin.",OP_SMIN},{"llvm.smax.",OP_SMAX},{"llvm.usub.sat.",OP_USUBSAT},{"llvm.uadd.sat.",OP_UADDSAT},{"llvm.ucmp.",OP_UCMP},{"llvm.scmp.",OP_SCMP}};
      for(auto&x:T1) if(starts(n,x.p)){ setSh(I,bin(x.op,b,ob,sh(A(0)),sh(A(1)),A(0),A(1))); return; }
      struct{const char*p;unsigned op;} T2[]={{"llvm.ctpop.",OP_CTPOP},{"llvm.ctlz.",OP_CTLZ},{"llvm.cttz.",OP_CTTZ},{"llvm.bswap.",OP_BSWAP},{"llvm.bitreverse.",OP_BITREV},{"llvm.abs.",OP_ABS}};
      for(auto&x:T2) if(starts(n,x.p)){ setSh(I,bin(x.op,b,ob,sh(A(0)),c32(0),A(0),c64(0))); return; }
      bool fl=starts(n,"llvm.fshl."),fr=starts(n,"llvm.fshr.");
      if((fl||fr)&&LLVMIsAConstantInt(A(2))){ // (a:b) << k, take high
        unsigned k=LLVMConstIntGetZExtValue(A(2))%b; if(isZ(sh(A(0)))&&isZ(sh(A(1)))){ setSh(I,c32(0)); return; }
        if(fr) k=(b-k)%b; if(k==0){ setSh(I, sh(fl?A(0):A(1))); if(fr) setSh(I,sh(A(1))); return; }
        Ty t=rt; V kl=LLVMConstInt(t,k,0),kr=LLVMConstInt(t,b-k,0);
        V l=LLVMBuildShl(B,A(0),kl,""),r=LLVMBuildLShr(B,A(1),kr,"");
        V sl=bin(OP_SHL,b,b,sh(A(0)),c32(0),A(0),kl), sr=bin(OP_LSHR,b,b,sh(A(1)),c32(0),A(1),kr);
        setSh(I,bin(OP_OR,b,b,sl,sr,l,r)); return; }
    }
    if(LLVMGetTypeKind(rt)==LLVMStructTypeKind&&na==2&&scal(LLVMTypeOf(A(0)))&&n.find(".with.overflow.")!=string::npos){
      unsigned op=0,oo=0; if(starts(n,"llvm.uadd")){op=OP_ADD;oo=OP_UADDO;} else if(starts(n,"llvm.sadd")){op=OP_ADD;oo=OP_SADDO;} else if(starts(n,"llvm.usub")){op=OP_SUB;oo=OP_USUBO;} else if(starts(n,"llvm.ssub")){op=OP_SUB;oo=OP_SSUBO;} else if(starts(n,"llvm.umul")){op=OP_MUL;oo=OP_UMULO;} else if(starts(n,"llvm.smul")){op=OP_MUL;oo=OP_SMULO;}
      unsigned b=bits(LLVMTypeOf(A(0)));
      if(isZ(sh(A(0)))&&isZ(sh(A(1)))){ setSh(I,zeroSh(rt)); return; }
      V s1=bin(op,b,b,sh(A(0)),sh(A(1)),A(0),A(1)), s2=bin(oo,b,1,sh(A(0)),sh(A(1)),A(0),A(1));
      V r=LLVMGetUndef(shT(rt)); r=LLVMBuildInsertValue(B,r,s1,0,""); r=LLVMBuildInsertValue(B,r,s2,1,""); setSh(I,r); return; }
    concArgs(I,na);
    if(n.find("x86.")==string::npos&&n.find("vector.reduce")==string::npos) warn("intrinsic "+n);
    if(!isvoid) setSh(I,zeroSh(rt)); return;
  }
  if(F&&(starts(n,"__si_")||starts(n,"__s_"))) {
    if(starts(n,"__s_x_")){ // runtime model with shadow args
      unsigned sl=0; for(unsigned i=0;i<na;i++){ V a=LLVMGetOperand(I,i); storeSlots(argsG,sl,LLVMTypeOf(a),sh(a)); }
      if(!isvoid){ LLVMPositionBuilderBefore(B,LLVMGetNextInstruction(I)); unsigned k=0; setSh(I,loadSlots(retG,k,rt)); }
      return; }
    concArgs(I,na); if(!isvoid) setSh(I,zeroSh(rt)); return; }
  bool external = F && LLVMIsDeclaration(F) && !(starts(n,"_R")||starts(n,"_ZN")||starts(n,"hsym_")||starts(n,"__rust")||starts(n,"rust_"));
  if(F&&XREPL.count(n)){
    // replaced by runtime model __s_x_<n>; result shadow via retG
    string rn="__s_x_"+n; V R=LLVMGetNamedFunction(M,rn.c_str()); Ty ft=LLVMGlobalGetValueType(F); if(!R) R=LLVMAddFunction(M,rn.c_str(),ft);
    unsigned sl=0; for(unsigned i=0;i<na;i++){ V a=LLVMGetOperand(I,i); storeSlots(argsG,sl,LLVMTypeOf(a),sh(a)); }
    LLVMSetOperand(I,LLVMGetNumOperands(I)-1,R);
    if(!isvoid){ LLVMPositionBuilderBefore(B,LLVMGetNextInstruction(I)); unsigned k=0; setSh(I,loadSlots(retG,k,rt)); }
    return;
  }
  if(external){
    extSeen.insert(n);
    concArgs(I,na);
    V gs=LLVMBuildGlobalStringPtr(B,n.c_str(),"extname");
    call("__s_ext",{gs});
    if(!isvoid) setSh(I,zeroSh(rt)); return;
  }
  if(!F) concOp(callee);
  unsigned sl=0; bool over=false; unsigned tot=0; for(unsigned i=0;i<na;i++) tot+=slotCount(LLVMTypeOf(LLVMGetOperand(I,i)));
  if(tot>60) over=true;
  if(over) die("too many args");
  for(unsigned i=0;i<na;i++){ V a=LLVMGetOperand(I,i); storeSlots(argsG,sl,LLVMTypeOf(a),sh(a)); }
  if(!isvoid){
    if(LLVMIsTailCall(I)) LLVMSetTailCall(I,0);
    V nx=LLVMGetNextInstruction(I); LLVMPositionBuilderBefore(B,nx); unsigned k=0;
    if(LLVMIsAUnreachableInst(nx)) setSh(I,zeroSh(rt)); else setSh(I,loadSlots(retG,k,rt)); }
}

static void processFunction(V F){
  SH.clear();
  // RPO
  vector<BB> rpo; { unordered_set<BB> seen; vector<pair<BB,unsigned>> st; BB e=LLVMGetEntryBasicBlock(F); st.push_back({e,0}); seen.insert(e);
    while(!st.empty()){ auto&[b,i]=st.back(); V t=LLVMGetBasicBlockTerminator(b); unsigned n=LLVMGetNumSuccessors(t); if(i<n){ BB s=LLVMGetSuccessor(t,i); i++; if(seen.insert(s).second) st.push_back({s,0}); } else { rpo.push_back(b); st.pop_back(); } }
    vector<BB> r(rpo.rbegin(),rpo.rend()); rpo=r; }
  // collect instructions first
  vector<vector<V>> ins; for(BB b:rpo){ vector<V> v; for(V i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)) v.push_back(i); ins.push_back(v); }
  // phis
  struct PhiR{V phi,sh;}; vector<PhiR> phis;
  for(auto&v:ins) for(V i:v) if(LLVMGetInstructionOpcode(i)==LLVMPHI){ Ty t=LLVMTypeOf(i); if(!(scal(t)||wide(t)||isAgg(t))) continue; LLVMPositionBuilderBefore(B,i); V p=LLVMBuildPhi(B,shT(t),""); phis.push_back({i,p}); setSh(i,p); }
  // args
  { BB e=LLVMGetEntryBasicBlock(F); V first=LLVMGetFirstInstruction(e); 
    LLVMPositionBuilderBefore(B,first); unsigned k=0; unsigned np=LLVMCountParams(F);
    for(unsigned i=0;i<np;i++){ V p=LLVMGetParam(F,i); Ty t=LLVMTypeOf(p); V s=loadSlots(argsG,k,t); if(canTrack(t)) setSh(p,s); } }
  Ty frt=LLVMGetReturnType(LLVMGlobalGetValueType(F));
  for(size_t bi=0;bi<rpo.size();bi++) for(V I:ins[bi]){
    LLVMOpcode op=LLVMGetInstructionOpcode(I); Ty t=LLVMTypeOf(I);
    if(op==LLVMPHI) continue;
    LLVMPositionBuilderBefore(B,I);
    auto A=[&](unsigned i){return LLVMGetOperand(I,i);};
    switch(op){
      case LLVMRet: if(LLVMGetNumOperands(I)){ unsigned k=0; V v=A(0); Ty vt=LLVMTypeOf(v); storeSlots(retG,k,vt,canTrack(vt)?sh(v):zeroSh(vt)); } break;
      case LLVMBr: case (LLVMOpcode)70: case (LLVMOpcode)71: if(LLVMGetNumSuccessors(I)>1){ V c=LLVMGetCondition(I); V s=sh(c); if(!isZ(s)) call("__si_br",{s,LLVMBuildZExt(B,c,I32,"")}); } break;
      case LLVMSwitch:{ V c=A(0); V s=sh(c); if(isZ(s)) break; if(!scal(LLVMTypeOf(c))){ concOp(c); break; }
        // cases: operands: cond, default, (val,bb)*  -- LLVM>=22 may store values separately
        unsigned ns=LLVMGetNumSuccessors(I); map<BB,unsigned> ids; vector<V> arr; 
        BB def=LLVMGetSwitchDefaultDest(I); ids[def]=0;
        for(unsigned i=1;i<ns;i++){ BB d=LLVMGetSuccessor(I,i); V cv;
          cv=LLVMGetSwitchCaseValue(I,i);
          if(!ids.count(d)){ unsigned z=ids.size(); ids[d]=z; } arr.push_back(c64(LLVMConstIntGetZExtValue(cv))); arr.push_back(c64(ids[d])); }
        if(arr.empty()) break;
        V init=LLVMConstArray2(I64,arr.data(),arr.size()); V g=LLVMAddGlobal(M,LLVMTypeOf(init),"hsw"); LLVMSetInitializer(g,init); LLVMSetLinkage(g,LLVMPrivateLinkage); LLVMSetGlobalConstant(g,1);
        call("__si_switch",{s,to64(c),g,c32(arr.size()/2)}); break; }
      case LLVMUnreachable: case LLVMFence: break;
      case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor:{
        if(isZ(sh(A(0)))&&isZ(sh(A(1)))){ setSh(I,zeroSh(t)); break; }
        static const map<int,unsigned> mp={{LLVMAdd,OP_ADD},{LLVMSub,OP_SUB},{LLVMMul,OP_MUL},{LLVMUDiv,OP_UDIV},{LLVMSDiv,OP_SDIV},{LLVMURem,OP_UREM},{LLVMSRem,OP_SREM},{LLVMShl,OP_SHL},{LLVMLShr,OP_LSHR},{LLVMAShr,OP_ASHR},{LLVMAnd,OP_AND},{LLVMOr,OP_OR},{LLVMXor,OP_XOR}};
        if(scal(t)){ unsigned b=bits(t); setSh(I,bin(mp.at(op),b,b,sh(A(0)),sh(A(1)),A(0),A(1))); break; }
        if(wide(t)&&(op==LLVMLShr||op==LLVMShl)&&LLVMIsAConstantInt(A(1))){ setSh(I,call("__si_wshift",{c32(op==LLVMShl),sh(A(0)),c32(LLVMConstIntGetZExtValue(A(1))),c32(bits(t)),to64(A(0)),hi64(A(0))})); break; }
        if(wide(t)&&(op==LLVMAnd||op==LLVMOr||op==LLVMXor)){ setSh(I,call("__si_wlogic",{c32(mp.at(op)),sh(A(0)),sh(A(1)),to64(A(0)),hi64(A(0)),to64(A(1)),hi64(A(1))})); break; }
        concOp(A(0)); concOp(A(1)); setSh(I,zeroSh(t)); break; }
      case LLVMICmp:{ Ty ot=LLVMTypeOf(A(0)); if(LLVMGetTypeKind(ot)==LLVMVectorTypeKind) break; if(isZ(sh(A(0)))&&isZ(sh(A(1)))) break;
        if(scal(ot)) setSh(I,bin(icmpOp(LLVMGetICmpPredicate(I)),bits(ot),1,sh(A(0)),sh(A(1)),A(0),A(1)));
        else if(wide(ot)&&(LLVMGetICmpPredicate(I)==LLVMIntEQ||LLVMGetICmpPredicate(I)==LLVMIntNE)){ setSh(I,call("__si_wcmp",{c32(icmpOp(LLVMGetICmpPredicate(I))),sh(A(0)),sh(A(1)),to64(A(0)),hi64(A(0)),to64(A(1)),hi64(A(1))})); }
        else { concOp(A(0)); concOp(A(1)); } break; }
      case LLVMTrunc:{ if(isZ(sh(A(0)))) break; Ty ot=LLVMTypeOf(A(0)); if(!isInt(t)) break; if(scal(ot)) setSh(I,bin(OP_TRUNC,bits(ot),bits(t),sh(A(0)),c32(0),A(0),c64(0))); else if(wide(ot)&&scal(t)) { V lo=call("__si_wlo",{sh(A(0))}); V lov=to64(A(0)); setSh(I,bits(t)==64?lo:bin(OP_TRUNC,64,bits(t),lo,c32(0),lov,c64(0))); } else concOp(A(0)); break; }
      case LLVMZExt: case LLVMSExt:{ if(isZ(sh(A(0)))) break; Ty ot=LLVMTypeOf(A(0)); if(!isInt(t)) break; if(scal(ot)&&scal(t)) setSh(I,bin(op==LLVMZExt?OP_ZEXT:OP_SEXT,bits(ot),bits(t),sh(A(0)),c32(0),A(0),c64(0))); else if(scal(ot)&&wide(t)&&op==LLVMZExt){ V s=sh(A(0)); if(bits(ot)<64) s=bin(OP_ZEXT,bits(ot),64,s,c32(0),A(0),c64(0)); setSh(I,call("__si_wpair",{s,to64(A(0))})); } else concOp(A(0)); break; }
      case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMAddrSpaceCast: case (LLVMOpcode)69:{ if(isZ(sh(A(0)))) break; Ty ot=LLVMTypeOf(A(0)); if(scal(ot)&&scal(t)){ if(bits(ot)==bits(t)) setSh(I,sh(A(0))); else concOp(A(0)); } else concOp(A(0)); break; }
      case LLVMFreeze: if(scal(t)||wide(t)||isAgg(t)) setSh(I,sh(A(0))); break;
      case LLVMSelect:{ V c=A(0),a=A(1),b=A(2); if(LLVMGetTypeKind(LLVMTypeOf(c))==LLVMVectorTypeKind) break; 
        if(isZ(sh(c))){ if(scal(t)||wide(t)||isAgg(t)){ if(isZ(sh(a))&&isZ(sh(b))) break; setSh(I,LLVMBuildSelect(B,c,sh(a),sh(b),"")); } break; }
        if(scal(t)) setSh(I,call("__si_select",{c32(bits(t)),sh(c),LLVMBuildZExt(B,c,I32,""),sh(a),sh(b),to64(a),to64(b)}));
        else { concOp(c); if(wide(t)||isAgg(t)) setSh(I,LLVMBuildSelect(B,c,sh(a),sh(b),"")); } break; }
      case LLVMExtractValue:{ V s=sh(A(0)); if(isZ(s)) break; unsigned n=LLVMGetNumIndices(I); const unsigned*ix=LLVMGetIndices(I); for(unsigned i=0;i<n;i++) s=LLVMBuildExtractValue(B,s,ix[i],""); if(scal(t)||wide(t)||isAgg(t)) setSh(I,s); break; }
      case LLVMInsertValue:{ V s=sh(A(0)),e=sh(A(1)); if(isZ(s)&&isZ(e)) break; unsigned n=LLVMGetNumIndices(I); if(n!=1){ concOp(A(1)); warn("nested insertvalue"); setSh(I,s); break; } setSh(I,LLVMBuildInsertValue(B,s,e,LLVMGetIndices(I)[0],"")); break; }
      case LLVMAlloca: break;
      case LLVMLoad:{ setSh(I,doLoad(A(0),t)); break; }
      case LLVMStore: doStore(A(1),A(0),sh(A(0))); break;
      case LLVMGetElementPtr: setSh(I,doGEP(I)); break;
      case LLVMCall: doCall(I); break;
      case LLVMAtomicRMW:{ concOp(A(0)); concOp(A(1)); call("__si_concmem",{c32(0),A(0),c64(storeSize(LLVMTypeOf(A(1))))}); call("__si_memset",{c32(0),c32(0),c32(0),A(0),c64(storeSize(LLVMTypeOf(A(1))))}); break; }
      case LLVMAtomicCmpXchg:{ concOp(A(0)); concOp(A(1)); concOp(A(2)); unsigned n=storeSize(LLVMTypeOf(A(1))); call("__si_concmem",{c32(0),A(0),c64(n)}); call("__si_memset",{c32(0),c32(0),c32(0),A(0),c64(n)}); break; }
      case LLVMExtractElement: case LLVMInsertElement: case LLVMShuffleVector: concAllOps(I); break;
      case LLVMInvoke: case LLVMLandingPad: case LLVMResume: die("invoke/landingpad in "+nameOf(F)); break;
      default: concAllOps(I); break;
    }
  }
  for(auto&p:phis){ unsigned n=LLVMCountIncoming(p.phi); vector<V> vs; vector<BB> bs; for(unsigned i=0;i<n;i++){ V v=LLVMGetIncomingValue(p.phi,i); vs.push_back(sh(v)); bs.push_back(LLVMGetIncomingBlock(p.phi,i)); } LLVMAddIncoming(p.sh,vs.data(),bs.data(),n); }
  (void)frt;
}
static LLVMModuleRef readBC(const char*f){ LLVMMemoryBufferRef mb; char*e; if(LLVMCreateMemoryBufferWithContentsOfFile(f,&mb,&e)) die(e); LLVMModuleRef m; if(LLVMParseIRInContext(C,mb,&m,&e)) die(string(f)+": "+e); return m; }

// After the common optimisation the module is cut into parts that are instrumented and compiled
// in parallel: local symbols become hidden ones under a private prefix, every part defines its
// share of the functions, part 0 all the data.
static int partition(int k,string&out){
  int n=0; auto loc=[&](V g){ auto l=LLVMGetLinkage(g); bool local=l==LLVMInternalLinkage||l==LLVMPrivateLinkage; string nm=nameOf(g);
    if(local){ nm=(nm.empty()?string("_Rhsym"):nm)+".hsymm"+to_string(n++); LLVMSetValueName2(g,nm.c_str(),nm.size()); LLVMSetLinkage(g,LLVMExternalLinkage); LLVMSetVisibility(g,LLVMHiddenVisibility); LLVMSetUnnamedAddress(g,LLVMNoUnnamedAddr);} LLVMSetComdat(g,0); };
  if(LLVMGetFirstGlobalAlias(M)) return 0*k+( fprintf(stderr,"aliases: not split\n"),0 );
  vector<pair<size_t,V>> fs;
  for(V g=LLVMGetFirstGlobal(M);g;g=LLVMGetNextGlobal(g)) if(!LLVMIsDeclaration(g)&&!starts(nameOf(g),"llvm.")) loc(g);
  for(V f=LLVMGetFirstFunction(M);f;f=LLVMGetNextFunction(f)) if(!LLVMIsDeclaration(f)){ loc(f); size_t c=0; for(BB b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b)) for(V i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)) c++; fs.push_back({c,f}); }
  stable_sort(fs.begin(),fs.end(),[](auto&a,auto&b){return a.first>b.first;});
  vector<size_t> load(k,0); vector<int> own(fs.size());
  for(size_t i=0;i<fs.size();i++){ int b=0; for(int j=1;j<k;j++) if(load[j]<load[b]) b=j; own[i]=b; load[b]+=fs[i].first+20; }
  int part=0; for(int i=1;i<k;i++){ fflush(stdout); int p=fork(); if(p<0) die("fork"); if(!p){ part=i; break; } }
  if(part){ out+="."+to_string(part);
    for(V g=LLVMGetFirstGlobal(M);g;){ V ng=LLVMGetNextGlobal(g); if(starts(nameOf(g),"llvm.")) LLVMDeleteGlobal(g); else if(!LLVMIsDeclaration(g)){ LLVMSetInitializer(g,0); LLVMSetLinkage(g,LLVMExternalLinkage);} g=ng; } }
  for(size_t i=0;i<fs.size();i++) if(own[i]!=part){ V f=fs[i].second; LLVMSetPersonalityFn(f,0);
    vector<BB> bs; for(BB b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b)) bs.push_back(b);
    for(BB b:bs) for(V x=LLVMGetLastInstruction(b);x;x=LLVMGetLastInstruction(b)){ if(LLVMGetTypeKind(LLVMTypeOf(x))!=LLVMVoidTypeKind) LLVMReplaceAllUsesWith(x,LLVMGetUndef(LLVMTypeOf(x))); LLVMInstructionEraseFromParent(x); }
    for(BB b:bs) LLVMDeleteBasicBlock(b);
    LLVMSetLinkage(f,LLVMExternalLinkage); }
  return part; }

int main(int argc,char**argv){
  // instr [--keep file] [--models file] [--inline inline.bc] [--dump out.ll] -o out.o in.bc...
  vector<string> in; string out,inl,keep,models,dump; bool noinstr=false; int split=1,part=0;
  for(int i=1;i<argc;i++){ string a=argv[i]; if(a=="-o") out=argv[++i]; else if(a=="--inline") inl=argv[++i]; else if(a=="--keep") keep=argv[++i]; else if(a=="--models") models=argv[++i]; else if(a=="--dump") dump=argv[++i]; else if(a=="--split") split=atoi(argv[++i]); else if(a=="--no-instr") noinstr=true; else in.push_back(a); }
  LLVMInitializeX86TargetInfo(); LLVMInitializeX86Target(); LLVMInitializeX86TargetMC(); LLVMInitializeX86AsmPrinter(); LLVMInitializeX86AsmParser();
  C=LLVMContextCreate();
  M=readBC(in[0].c_str()); for(size_t i=1;i<in.size();i++) if(LLVMLinkModules2(M,readBC(in[i].c_str()))) die("link");
  TD=LLVMGetModuleDataLayout(M); B=LLVMCreateBuilderInContext(C);
  I1=LLVMInt1TypeInContext(C); I8=LLVMInt8TypeInContext(C); I32=LLVMInt32TypeInContext(C); I64=LLVMInt64TypeInContext(C); PTR=LLVMPointerTypeInContext(C,0); VOID=LLVMVoidTypeInContext(C);
  // TLS off: everything runs on one thread
  for(V g=LLVMGetFirstGlobal(M);g;g=LLVMGetNextGlobal(g)) if(LLVMIsThreadLocal(g)){
    // replace uses through llvm.threadlocal.address by the global itself
    LLVMSetThreadLocal(g,0); }
  for(V f=LLVMGetFirstFunction(M);f;){ V nf=LLVMGetNextFunction(f); if(starts(nameOf(f),"llvm.threadlocal.address")){
      vector<V> us; for(LLVMUseRef u=LLVMGetFirstUse(f);u;u=LLVMGetNextUse(u)) us.push_back(LLVMGetUser(u));
      for(V u:us){ LLVMReplaceAllUsesWith(u,LLVMGetOperand(u,0)); LLVMInstructionEraseFromParent(u); } LLVMDeleteFunction(f); }
    f=nf; }
  // models: replace bodies.  File lines: "<substr1>&<substr2>... <model function name>" ; model name "!zero" => return 0
  vector<pair<vector<string>,string>> mods; if(!models.empty()){ ifstream f(models); string a,b; while(f>>a>>b){ if(a[0]=='#'){ string l; getline(f,l); continue;} vector<string> v; size_t p=0; while(1){ size_t q=a.find('&',p); v.push_back(a.substr(p,q==string::npos?q:q-p)); if(q==string::npos)break; p=q+1;} mods.push_back({v,b}); } }
  set<string> replaced;
  for(V f=LLVMGetFirstFunction(M);f;f=LLVMGetNextFunction(f)) if(!LLVMIsDeclaration(f)){ string n=nameOf(f); if(starts(n,"hsym_model")||starts(n,"__s")) continue;
    for(auto&[pats,target]:mods){ bool ok=true; for(auto&p:pats){ if(p[0]=='^'){ if(!starts(n,p.c_str()+1)) ok=false; } else if(p[0]=='!'){ if(n.find(p.substr(1))!=string::npos) ok=false; } else if(p[0]=='$'){ string q=p.substr(1); if(n.size()<q.size()||n.compare(n.size()-q.size(),q.size(),q)) ok=false; } else if(n.find(p)==string::npos) ok=false; if(!ok) break; } if(!ok) continue;
      if(LLVMGetLinkage(f)==LLVMAvailableExternallyLinkage) { LLVMSetLinkage(f,LLVMExternalLinkage); }
      // drop body
      vector<BB> bs; for(BB b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b)) bs.push_back(b);
      for(BB b:bs){ // erase instrs
        for(V i=LLVMGetLastInstruction(b);i;i=LLVMGetLastInstruction(b)){ if(LLVMGetTypeKind(LLVMTypeOf(i))!=LLVMVoidTypeKind) LLVMReplaceAllUsesWith(i,LLVMGetUndef(LLVMTypeOf(i))); LLVMInstructionEraseFromParent(i);} }
      for(size_t i=1;i<bs.size();i++) LLVMDeleteBasicBlock(bs[i]);
      LLVMPositionBuilderAtEnd(B,bs[0]); Ty ft=LLVMGlobalGetValueType(f); Ty rt=LLVMGetReturnType(ft);
      if(target=="!zero"){ if(LLVMGetTypeKind(rt)==LLVMVoidTypeKind) LLVMBuildRetVoid(B); else LLVMBuildRet(B,LLVMConstNull(rt)); }
      else { V mf=LLVMGetNamedFunction(M,target.c_str()); if(!mf) mf=LLVMAddFunction(M,target.c_str(),ft); unsigned np=LLVMCountParams(f); vector<V> ps(np); LLVMGetParams(f,ps.data()); V r=LLVMBuildCall2(B,ft,mf,ps.data(),np,""); if(LLVMGetTypeKind(rt)==LLVMVoidTypeKind) LLVMBuildRetVoid(B); else LLVMBuildRet(B,r); }
      // attributes about memory effects may be wrong now; strip function attrs
      for(const char*an:{"memory","willreturn","nosync","nofree","noreturn","cold","noinline","alwaysinline"}){ unsigned k=LLVMGetEnumAttributeKindForName(an,strlen(an)); LLVMRemoveEnumAttributeAtIndex(f,LLVMAttributeFunctionIndex,k); }
      replaced.insert(n+" -> "+target); break; } }
  for(auto&r:replaced) printf("model %s\n",r.c_str());
  // internalize
  if(!keep.empty()){ set<string> ks; ifstream f(keep); string s; vector<string> pre; while(f>>s){ if(s.back()=='*') pre.push_back(s.substr(0,s.size()-1)); else ks.insert(s); }
    auto kept=[&](const string&n){ if(ks.count(n)) return true; for(auto&p:pre) if(starts(n,p.c_str())) return true; return false; };
    for(V f=LLVMGetFirstFunction(M);f;f=LLVMGetNextFunction(f)) if(!LLVMIsDeclaration(f)&&!kept(nameOf(f))) { LLVMSetLinkage(f,LLVMInternalLinkage); LLVMSetVisibility(f,LLVMDefaultVisibility);} 
    for(V g=LLVMGetFirstGlobal(M);g;g=LLVMGetNextGlobal(g)) if(!LLVMIsDeclaration(g)&&!kept(nameOf(g))&&!starts(nameOf(g),"llvm.")) { LLVMSetLinkage(g,LLVMInternalLinkage); LLVMSetVisibility(g,LLVMDefaultVisibility);} }
  char*e; LLVMTargetRef tgt; if(LLVMGetTargetFromTriple("x86_64-unknown-linux-gnu",&tgt,&e)) die(e);
  LLVMTargetMachineRef tm=LLVMCreateTargetMachine(tgt,"x86_64-unknown-linux-gnu","x86-64","",LLVMCodeGenLevelLess,LLVMRelocPIC,LLVMCodeModelDefault);
  LLVMPassBuilderOptionsRef po=LLVMCreatePassBuilderOptions(); LLVMPassBuilderOptionsSetLoopVectorization(po,0); LLVMPassBuilderOptionsSetSLPVectorization(po,0); LLVMPassBuilderOptionsSetLoopUnrolling(po,0); LLVMPassBuilderOptionsSetLoopInterleaving(po,0);
  auto run=[&](const char*p){ LLVMErrorRef er=LLVMRunPasses(M,p,tm,po); if(er) die(string(p)+": "+LLVMGetErrorMessage(er)); };
  // vector-free functions only: keep sse features as rustc set them
  run(keep.empty()?"default<O1>":"globaldce,default<O1>");
  if(getenv("HSYM_V")) fprintf(stderr,"O1 %.1fs\n",clock()/1e6);
  if(split>1) part=partition(split,out);
  if(!noinstr){
    set<string> own; for(V f=LLVMGetFirstFunction(M);f;f=LLVMGetNextFunction(f)) own.insert(nameOf(f));
    LLVMModuleRef im=readBC(inl.c_str()); LLVMSetTarget(im,LLVMGetTarget(M)); LLVMSetDataLayout(im,LLVMGetDataLayoutStr(M)); 
    { V g=LLVMGetNamedGlobal(im,"llvm.compiler.used"); if(g) LLVMDeleteGlobal(g); }
    vector<string> hn; for(V f=LLVMGetFirstFunction(im);f;f=LLVMGetNextFunction(f)) hn.push_back(nameOf(f));
    if(LLVMLinkModules2(M,im)) die("link inline");
    for(auto&n:hn) if(starts(n,"__s")){ V f=LLVMGetNamedFunction(M,n.c_str()); if(!f) continue; helpers[n]={f,LLVMGlobalGetValueType(f)}; if(!LLVMIsDeclaration(f)){ LLVMSetLinkage(f,LLVMInternalLinkage); 
        unsigned k=LLVMGetEnumAttributeKindForName("noinline",8); LLVMRemoveEnumAttributeAtIndex(f,LLVMAttributeFunctionIndex,k); k=LLVMGetEnumAttributeKindForName("alwaysinline",12); LLVMAddAttributeAtIndex(f,LLVMAttributeFunctionIndex,LLVMCreateEnumAttribute(C,k,0)); } }
    { Ty ft=LLVMFunctionType(VOID,&PTR,1,0); helpers["__s_ext"]={LLVMAddFunction(M,"__s_ext",ft),ft}; }
    argsT=LLVMArrayType2(I32,64);
    argsG=LLVMAddGlobal(M,argsT,"__s_args"); retG=LLVMAddGlobal(M,argsT,"__s_ret"); LLVMSetLinkage(argsG,LLVMExternalLinkage); LLVMSetLinkage(retG,LLVMExternalLinkage); LLVMSetVisibility(argsG,LLVMHiddenVisibility); LLVMSetVisibility(retG,LLVMHiddenVisibility);
    vector<V> fs; for(V f=LLVMGetFirstFunction(M);f;f=LLVMGetNextFunction(f)) if(!LLVMIsDeclaration(f)&&!starts(nameOf(f),"__s")) fs.push_back(f);
    for(V f:fs){ if(LLVMGetLinkage(f)==LLVMAvailableExternallyLinkage) continue;
      // memory-effect attributes are no longer true
      for(const char*an:{"memory","willreturn","nosync","nofree","norecurse","speculatable","mustprogress"}){ unsigned k=LLVMGetEnumAttributeKindForName(an,strlen(an)); LLVMRemoveEnumAttributeAtIndex(f,LLVMAttributeFunctionIndex,k); }
      processFunction(f); }
    // call-site & declaration memory attributes
    unsigned km=LLVMGetEnumAttributeKindForName("memory",6), kw=LLVMGetEnumAttributeKindForName("willreturn",10), kf=LLVMGetEnumAttributeKindForName("nofree",6), ks=LLVMGetEnumAttributeKindForName("nosync",6);
    for(V f=LLVMGetFirstFunction(M);f;f=LLVMGetNextFunction(f)){ string n=nameOf(f); if(starts(n,"llvm.")) continue; if(starts(n,"__si_")) continue;
      if(LLVMIsDeclaration(f)) for(unsigned k:{km,kw,kf,ks}) LLVMRemoveEnumAttributeAtIndex(f,LLVMAttributeFunctionIndex,k);
      for(BB b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b)) for(V i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)) if(LLVMGetInstructionOpcode(i)==LLVMCall){ V cf=LLVMIsAFunction(LLVMGetCalledValue(i)); if(cf&&starts(nameOf(cf),"llvm.")) continue; for(unsigned k:{km,kw,kf,ks}) LLVMRemoveCallSiteEnumAttribute(i,LLVMAttributeFunctionIndex,k); } }
    if(LLVMVerifyModule(M,LLVMReturnStatusAction,&e)){ fprintf(stderr,"%s\n",e); LLVMPrintModuleToFile(M,"/tmp/bad.ll",&e); die("verify"); }
    run("always-inline,function(simplifycfg,early-cse,simplifycfg),globaldce");
  }
  if(!dump.empty()) LLVMPrintModuleToFile(M,dump.c_str(),&e);
  if(LLVMTargetMachineEmitToFile(tm,M,(char*)out.c_str(),LLVMObjectFile,&e)) die(e);
  if(getenv("HSYM_V")) fprintf(stderr,"part %d %.1fs\n",part,clock()/1e6);
  for(auto&[w,n]:warns) printf("warn %s %ld\n",w.c_str(),n);
  for(auto&n:extSeen) printf("ext %s\n",n.c_str());
  fflush(stdout); if(part) _exit(0);
  for(int i=1;i<split;i++){ int st; if(wait(&st)<0||st) die("part failed"); }
  return 0;
}
