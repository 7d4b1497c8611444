// vfse: a path-forking symbolic executor for LLVM 18 bitcode.
// The code under test is executed symbolically instruction by instruction; inputs are z3 bit-vector
// variables, every branch on them is decided by the solver, memory is modelled per byte with bounds,
// lifetime and initialisation tracking.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <memory>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <fstream>
#include <sstream>
#include <unordered_set>
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32;

static Ctx X;
struct Val { u64 c=0; Expr*e=nullptr; };
static const int OFFB=40; static const u64 OFFM=(1ull<<OFFB)-1;
static inline u64 mkaddr(u64 id,u64 off){ return (id<<OFFB)+off; }

// ---------------------------------------------------------------- options / shared state
struct Opt { int jobs=8; double timeLimit=600; u64 maxInst=20000000; int maxViol=4; int samples=24; bool descTid=false; bool checkUninit=true; std::string out="-"; std::string entry="vf_main"; int verbose=0; u64 maxPaths=0; unsigned rlimit=0; bool allocNull=false; u64 memMB=0; u64 enumLimit=300000; unsigned queryMs=3000, retryMs=60000; } opt;
struct Shared { volatile int idle; volatile int stop; volatile u64 paths; volatile int viol; volatile int fileSeq; volatile u64 forks; volatile int incomplete; };
static Shared*sh; static std::string tmpDir; static double tStart;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

// ---------------------------------------------------------------- memory objects
enum OK : uint8_t { OK_HEAP, OK_STACK, OK_GLOBAL, OK_FUNC, OK_IDENT };
struct SymB { Expr*e; uint8_t i; };
struct Obj { int rc=1; OK kind=OK_HEAP; bool dead=false, ro=false, hasSym=false, anyFlag=false; uint8_t how=0; u64 size=0; uint8_t*data=nullptr; uint8_t*flag=nullptr; SymB*sym=nullptr; u32 tag=0;
  ~Obj(){ free(data); free(flag); free(sym); } };
static Obj* newObj(OK k,u64 size,bool init){ Obj*o=new Obj; o->kind=k;o->size=size; if(k!=OK_FUNC&&k!=OK_IDENT){ u64 n=(size+15)&~7ull; o->data=(uint8_t*)calloc(n,1); o->flag=(uint8_t*)malloc(n); memset(o->flag,init?0:1,n);} return o; }
static Obj* cloneObj(Obj*s){ Obj*o=new Obj; o->kind=s->kind;o->dead=s->dead;o->ro=s->ro;o->size=s->size;o->hasSym=s->hasSym;o->how=s->how;o->tag=s->tag; if(s->data){ u64 n=(s->size+15)&~7ull; o->data=(uint8_t*)malloc(n);memcpy(o->data,s->data,n);o->flag=(uint8_t*)malloc(n);memcpy(o->flag,s->flag,n); if(s->sym){o->sym=(SymB*)malloc(n*sizeof(SymB));memcpy(o->sym,s->sym,n*sizeof(SymB));} } return o; }

// ---------------------------------------------------------------- decoded program
enum IOp : uint8_t { I_BIN, I_FBIN, I_FNEG, I_ICMP, I_FCMP, I_ZEXT,I_SEXT,I_TRUNC,I_FPEXT,I_FPTRUNC,I_SI2F,I_UI2F,I_F2SI,I_F2UI,I_COPY, I_ALLOCA,I_LOAD,I_STORE,I_GEP,I_BR,I_CBR,I_SWITCH,I_RET,I_UNREACH,I_SELECT,I_CALL,I_EXTRACTV,I_INSERTV,I_ATOMICRMW,I_CMPXCHG,I_FENCE,I_UNSUP };
struct Edge { int pc; std::vector<std::pair<int,int>> cp; };
struct Fn;
enum Ext : int { X_NONE, X_UNKNOWN, X_VF_IN, X_VF_RANGE, X_VF_ASSUME, X_VF_ASSERT, X_VF_REACH, X_VF_CONC, X_VF_LIVE, X_VF_OUT, X_VF_IDENT, X_VF_THREADS, X_VF_DESC, X_VF_FAILAT, X_VF_SPREC, X_VF_SILENT, X_VF_VALID, X_VF_FREED, X_VF_ISSYM, X_VF_TAINT,
  X_MALLOC,X_NEW,X_NEWA,X_DEL,X_DELA,X_CALLOC,X_REALLOC,X_FREE,X_MEMCPY,X_MEMSET,X_NOP,X_NOP0,X_ABORT,X_EXIT,X_ASSERTFAIL,X_STACKSAVE,X_STACKRESTORE,X_FABS,X_SQRT,X_MATH1,X_MATH2,X_FLOOR,X_CEIL,X_ABSI,X_UBTRAP,X_OVF,X_MINMAX,X_SPRINTF,X_SNPRINTF,X_FMULADD,X_CTPOP,X_FSH,X_ISFPCLASS,X_SAT,X_BSWAP,
  X_FORK,X_SINIT,X_BARRIER,X_CRIT,X_ENDCRIT,X_GTID,X_NTHREADS,X_TID,X_SINGLE,X_REDUCE,X_PUSHNT,X_ONEPTR,X_FPRINTF,X_EXPECT,X_OBJSIZE,X_ISCONST,X_VASTART,X_VACOPY };
struct Inst { IOp op; uint8_t sub=0; bool flag=false; int n=1; int w=0,w2=0; int dst=-1; int a=0,b=0,d=0; u64 imm=0; std::vector<int> ops; std::vector<u64> scl; std::vector<int> ws; Fn*callee=nullptr; int ext=0; double(*m1)(double)=nullptr; double(*m2)(double,double)=nullptr; std::string name; Edge*e1=nullptr,*e2=nullptr; std::vector<std::pair<u64,Edge*>> cases; const Instruction*I=nullptr; std::vector<u64> byval; };
struct Fn { Function*F; std::string name; int id; u32 objid; int nregs=0; std::vector<int> argSlot; std::vector<int> argW; std::vector<Inst> code; std::vector<Val> consts; u64 execd=0; std::string file; bool decl=false; };
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout*DL;
static std::vector<Fn*> fns; static std::unordered_map<Function*,Fn*> fnOf; static std::unordered_map<u32,Fn*> fnByObj;
static std::unordered_map<const GlobalVariable*,u32> gvObj;
static std::vector<Obj*> baseObjs;

static void flat(Type*t,std::vector<int>&w){
  if(auto*I=dyn_cast<IntegerType>(t)) w.push_back(I->getBitWidth());
  else if(t->isPointerTy()||t->isDoubleTy()) w.push_back(64);
  else if(t->isFloatTy()) w.push_back(32);
  else if(auto*S=dyn_cast<StructType>(t)){ for(auto*e:S->elements()) flat(e,w); }
  else if(auto*A=dyn_cast<ArrayType>(t)){ for(u64 i=0;i<A->getNumElements();i++) flat(A->getElementType(),w); }
  else if(auto*V=dyn_cast<FixedVectorType>(t)){ for(u64 i=0;i<V->getNumElements();i++) flat(V->getElementType(),w); }
  else if(t->isVoidTy()){} else w.push_back(999);
}
static void flatOff(Type*t,u64 base,std::vector<u64>&o){
  if(auto*S=dyn_cast<StructType>(t)){ auto*L=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();i++) flatOff(S->getElementType(i),base+L->getElementOffset(i),o); }
  else if(auto*A=dyn_cast<ArrayType>(t)){ u64 sz=DL->getTypeAllocSize(A->getElementType()); for(u64 i=0;i<A->getNumElements();i++) flatOff(A->getElementType(),base+i*sz,o); }
  else if(auto*V=dyn_cast<FixedVectorType>(t)){ u64 sz=DL->getTypeAllocSize(V->getElementType()); for(u64 i=0;i<V->getNumElements();i++) flatOff(V->getElementType(),base+i*sz,o); }
  else o.push_back(base);
}
static int leaves(Type*t){ std::vector<int> w; flat(t,w); return (int)w.size(); }
static std::map<int,Expr*> undefs;
static Val undefVal(int w){ if(!opt.checkUninit||w>64) return Val(); auto&u=undefs[w]; if(!u) u=X.var(w,true); return Val{0,u}; }
static u64 constInt(Constant*C); 
static void evalConst(Constant*C,std::vector<Val>&o){
  Type*t=C->getType();
  if(auto*I=dyn_cast<ConstantInt>(C)){ o.push_back({I->getBitWidth()<=64?I->getZExtValue():0,nullptr}); return; }
  if(auto*F=dyn_cast<ConstantFP>(C)){ o.push_back({t->isFloatTy()||t->isDoubleTy()?F->getValueAPF().bitcastToAPInt().getZExtValue():0,nullptr}); return; }
  if(isa<ConstantPointerNull>(C)){ o.push_back({0,nullptr}); return; }
  if(isa<UndefValue>(C)){ std::vector<int> w; flat(t,w); for(int x:w) o.push_back(undefVal(x)); return; }
  if(isa<ConstantAggregateZero>(C)){ std::vector<int> w; flat(t,w); for(size_t i=0;i<w.size();i++) o.push_back({0,nullptr}); return; }
  if(auto*G=dyn_cast<GlobalVariable>(C)){ o.push_back({mkaddr(gvObj[G],0),nullptr}); return; }
  if(auto*F=dyn_cast<Function>(C)){ if(F->isDeclaration()&&F->hasExternalWeakLinkage()){ o.push_back({0,nullptr}); return; } o.push_back({mkaddr(fnOf[F]->objid,0),nullptr}); return; }
  if(auto*A=dyn_cast<GlobalAlias>(C)){ evalConst(A->getAliasee(),o); return; }
  if(isa<ConstantExpr>(C)){ o.push_back({constInt(C),nullptr}); return; }
  if(isa<ConstantAggregate>(C)||isa<ConstantDataSequential>(C)){ unsigned n=t->isStructTy()?t->getStructNumElements():t->isArrayTy()?(unsigned)t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;i++) evalConst(C->getAggregateElement(i),o); return; }
  o.push_back({0,nullptr});
}
static u64 constInt(Constant*C){
  if(auto*E=dyn_cast<ConstantExpr>(C)){
    auto op=[&](int i){ return constInt(cast<Constant>(E->getOperand(i))); };
    switch(E->getOpcode()){
      case Instruction::GetElementPtr:{ APInt off(64,0); auto*G=cast<GEPOperator>(E); G->accumulateConstantOffset(*DL,off); return op(0)+off.getZExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return op(0);
      case Instruction::Add: return op(0)+op(1); case Instruction::Sub: return op(0)-op(1); case Instruction::Trunc: return op(0)&mask(E->getType()->getIntegerBitWidth());
      default: return 0; } }
  std::vector<Val> o; evalConst(C,o); return o.empty()?0:o[0].c;
}
static void writeConst(Obj*o,u64 off,Constant*C){
  Type*t=C->getType();
  if(isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)) return;
  if(auto*S=dyn_cast<StructType>(t)){ auto*L=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();i++) writeConst(o,off+L->getElementOffset(i),C->getAggregateElement(i)); return; }
  if(auto*A=dyn_cast<ArrayType>(t)){ u64 sz=DL->getTypeAllocSize(A->getElementType()); for(u64 i=0;i<A->getNumElements();i++) writeConst(o,off+i*sz,C->getAggregateElement((unsigned)i)); return; }
  std::vector<Val> v; evalConst(C,v); if(v.empty()) return; u64 sz=DL->getTypeStoreSize(t); memcpy(o->data+off,&v[0].c,std::min<u64>(sz,8));
}
static const std::map<std::string,int>& extTab(){ static std::map<std::string,int> m={
 {"vf_in",X_VF_IN},{"vf_range",X_VF_RANGE},{"vf_assume",X_VF_ASSUME},{"vf_assert",X_VF_ASSERT},{"vf_reach",X_VF_REACH},{"vf_concretize",X_VF_CONC},{"vf_live",X_VF_LIVE},{"vf_out",X_VF_OUT},{"vf_ident",X_VF_IDENT},{"vf_threads",X_VF_THREADS},{"vf_desc",X_VF_DESC},{"vf_fail_at",X_VF_FAILAT},{"vf_valid",X_VF_VALID},{"vf_is_sym",X_VF_ISSYM},
 {"malloc",X_MALLOC},{"calloc",X_CALLOC},{"realloc",X_REALLOC},{"free",X_FREE},{"_Znwm",X_NEW},{"_ZnwmRKSt9nothrow_t",X_NEW},{"_ZnamRKSt9nothrow_t",X_NEW},{"_Znam",X_NEWA},{"_ZdlPv",X_DEL},{"_ZdlPvRKSt9nothrow_t",X_DEL},{"_ZdaPvRKSt9nothrow_t",X_DEL},{"_ZdaPv",X_DELA},{"_ZdlPvm",X_DEL},{"_ZdaPvm",X_DELA},
 {"memcpy",X_MEMCPY},{"memmove",X_MEMCPY},{"memset",X_MEMSET},
 {"printf",X_NOP0},{"puts",X_NOP0},{"putchar",X_NOP0},{"fprintf",X_FPRINTF},{"fputs",X_FPRINTF},{"fputc",X_FPRINTF},{"fflush",X_NOP0},{"perror",X_NOP0},{"fwrite",X_FPRINTF},{"vfprintf",X_NOP0},{"srand",X_NOP0},{"setvbuf",X_NOP0},{"__cxa_atexit",X_NOP0},{"atexit",X_NOP0},{"vprintf",X_NOP0},
 {"abort",X_ABORT},{"exit",X_EXIT},{"__assert_fail",X_ASSERTFAIL},{"fabs",X_FABS},{"fabsf",X_FABS},{"sqrt",X_SQRT},{"sqrtf",X_SQRT},{"floor",X_FLOOR},{"ceil",X_CEIL},{"abs",X_ABSI},{"labs",X_ABSI},
 {"pow",X_MATH2},{"powf",X_MATH2},{"log2",X_MATH1},{"log",X_MATH1},{"exp",X_MATH1},{"log10",X_MATH1},{"exp2",X_MATH1},{"round",X_MATH1},{"fmod",X_MATH2},
 {"sprintf",X_SPRINTF},{"snprintf",X_SNPRINTF},
 {"__kmpc_fork_call",X_FORK},{"__kmpc_for_static_init_4",X_SINIT},{"__kmpc_for_static_init_4u",X_SINIT},{"__kmpc_for_static_init_8",X_SINIT},{"__kmpc_for_static_init_8u",X_SINIT},{"__kmpc_for_static_fini",X_NOP},{"__kmpc_barrier",X_BARRIER},{"__kmpc_critical",X_CRIT},{"__kmpc_end_critical",X_ENDCRIT},{"__kmpc_global_thread_num",X_GTID},{"omp_get_num_threads",X_NTHREADS},{"omp_get_max_threads",X_NTHREADS},{"omp_get_num_procs",X_NTHREADS},{"omp_set_num_threads",X_NOP},{"omp_get_thread_num",X_TID},{"__kmpc_single",X_SINGLE},{"__kmpc_master",X_SINGLE},{"__kmpc_end_single",X_NOP},{"__kmpc_end_master",X_NOP},{"__kmpc_reduce_nowait",X_REDUCE},{"__kmpc_reduce",X_REDUCE},{"__kmpc_end_reduce_nowait",X_ENDCRIT},{"__kmpc_end_reduce",X_ENDCRIT},{"__kmpc_push_num_threads",X_PUSHNT},
 };return m; }
// intrinsics that rt/vf_libc.c implements
static Function* aliasOf(Function*F){ static const std::pair<const char*,const char*> t[]={{"llvm.ctpop.i32","vf_ctpop32"},{"llvm.ctpop.i64","vf_ctpop64"},{"llvm.ctlz.i32","vf_ctlz32"},{"llvm.ctlz.i64","vf_ctlz64"},{"llvm.cttz.i32","vf_cttz32"},{"llvm.cttz.i64","vf_cttz64"},{"llvm.usub.sat.i32","vf_usubs32"},{"llvm.usub.sat.i64","vf_usubs64"},{"llvm.uadd.sat.i32","vf_uadds32"},{"llvm.uadd.sat.i64","vf_uadds64"},{"llvm.fshl.i32","vf_fshl32"},{"llvm.fshl.i64","vf_fshl64"},{"llvm.fshr.i32","vf_fshr32"},{"llvm.fshr.i64","vf_fshr64"},{"llvm.bswap.i32","vf_bswap32"},{"llvm.bswap.i64","vf_bswap64"},{"llvm.maxnum.f64","fmax"},{"llvm.maxnum.f32","fmaxf"},{"llvm.minnum.f64","fmin"},{"llvm.minnum.f32","fminf"},{"llvm.trunc.f64","trunc"},{"llvm.trunc.f32","truncf"},{"llvm.copysign.f64","copysign"},{"llvm.copysign.f32","copysignf"}};
  std::string n=F->getName().str(); for(auto&p:t) if(n==p.first){ Function*G=F->getParent()->getFunction(p.second); return G&&!G->isDeclaration()?G:nullptr; } return nullptr; }
static int extOf(const std::string&n){
  auto&t=extTab(); auto it=t.find(n); if(it!=t.end()) return it->second;
  auto P=[&](const char*p){ return n.rfind(p,0)==0; };
  if(P("llvm.memcpy")||P("llvm.memmove")) return X_MEMCPY; if(P("llvm.memset")) return X_MEMSET;
  if(P("llvm.stacksave")) return X_STACKSAVE; if(P("llvm.stackrestore")) return X_STACKRESTORE;
  if(P("llvm.lifetime")||P("llvm.dbg")||P("llvm.assume")||P("llvm.experimental.noalias")||P("llvm.prefetch")||P("llvm.donothing")||P("llvm.va_end")) return X_NOP;
  if(P("llvm.va_start")) return X_VASTART; if(P("llvm.va_copy")) return X_VACOPY;
  if(P("llvm.fabs")) return X_FABS; if(P("llvm.sqrt")) return X_SQRT; if(P("llvm.floor")) return X_FLOOR; if(P("llvm.ceil")) return X_CEIL;
  if(P("llvm.pow.")) return X_MATH2; if(P("llvm.log2")||P("llvm.log.")||P("llvm.exp.")||P("llvm.round")) return X_MATH1;
  if(P("llvm.abs")) return X_ABSI; if(P("llvm.ubsantrap")||P("llvm.trap")||P("llvm.debugtrap")) return X_UBTRAP;
  if(P("llvm.sadd.with")||P("llvm.uadd.with")||P("llvm.ssub.with")||P("llvm.usub.with")||P("llvm.smul.with")||P("llvm.umul.with")) return X_OVF;
  if(P("llvm.smax")||P("llvm.smin")||P("llvm.umax")||P("llvm.umin")) return X_MINMAX;
  if(P("llvm.fmuladd")||P("llvm.fma")) return X_FMULADD; if(P("llvm.is.fpclass")) return X_ISFPCLASS; if(P("llvm.expect")) return X_EXPECT; if(P("llvm.objectsize")) return X_OBJSIZE; if(P("llvm.is.constant")) return X_ISCONST;
  return X_UNKNOWN;
}
static Fn* decodeFn(Fn*f){
  Function&F=*f->F; std::unordered_map<const Value*,int> slot; std::unordered_map<const BasicBlock*,int> bbpc; int nr=0;
  std::map<std::pair<u64,bool>,int> ck;
  for(auto&A:F.args()){ slot[&A]=nr; f->argSlot.push_back(nr); std::vector<int> w; flat(A.getType(),w); for(int x:w) f->argW.push_back(x); nr+=(int)w.size(); }
  for(auto&B:F) for(auto&I:B){ int n=leaves(I.getType()); slot[&I]=nr; nr+=n; }
  f->nregs=nr;
  auto opd=[&](Value*v)->int{ if(auto*C=dyn_cast<Constant>(v)){ std::vector<Val> o; evalConst(C,o); int i=(int)f->consts.size(); for(auto&x:o) f->consts.push_back(x); if(o.empty()) f->consts.push_back({0,nullptr}); return ~i; }
    auto it=slot.find(v); if(it==slot.end()){ f->consts.push_back({0,nullptr}); return ~((int)f->consts.size()-1); } return it->second; };
  // block offsets
  int pc=0; for(auto&B:F){ bbpc[&B]=pc; for(auto&I:B){ if(isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) continue; pc++; } }
  auto mkEdge=[&](const BasicBlock*from,const BasicBlock*to){ Edge*e=new Edge; e->pc=bbpc[to]; for(auto&P:to->phis()){ Value*v=P.getIncomingValueForBlock(from); int s=opd(v),d=slot[&P],n=leaves(P.getType()); for(int i=0;i<n;i++) e->cp.push_back({d+i,s>=0?s+i:s-i}); } return e; };
  auto W=[&](Type*t){ std::vector<int> w; flat(t,w); return w.empty()?0:w[0]; };
  for(auto&B:F) for(auto&I:B){
    if(isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) continue;
    Inst x; x.I=&I; x.dst=slot[&I]; x.n=leaves(I.getType()); x.w=W(I.getType()); x.op=I_UNSUP; x.name=I.getOpcodeName();
    if(auto*O=dyn_cast<BinaryOperator>(&I)){ x.a=opd(O->getOperand(0)); x.b=opd(O->getOperand(1));
      switch(O->getOpcode()){
        #define BO(L,E_) case Instruction::L: x.op=I_BIN; x.sub=E_; break;
        BO(Add,E_ADD)BO(Sub,E_SUB)BO(Mul,E_MUL)BO(UDiv,E_UDIV)BO(SDiv,E_SDIV)BO(URem,E_UREM)BO(SRem,E_SREM)BO(Shl,E_SHL)BO(LShr,E_LSHR)BO(AShr,E_ASHR)BO(And,E_AND)BO(Or,E_OR)BO(Xor,E_XOR)
        #define FO(L,E_) case Instruction::L: x.op=I_FBIN; x.sub=E_; break;
        FO(FAdd,E_FADD)FO(FSub,E_FSUB)FO(FMul,E_FMUL)FO(FDiv,E_FDIV)FO(FRem,E_FREM)
        default:; } }
    else if(auto*U=dyn_cast<UnaryOperator>(&I)){ x.op=I_FNEG; x.a=opd(U->getOperand(0)); }
    else if(auto*C=dyn_cast<ICmpInst>(&I)){ x.op=I_ICMP; x.sub=C->getPredicate(); x.a=opd(C->getOperand(0)); x.b=opd(C->getOperand(1)); x.w2=W(C->getOperand(0)->getType()); }
    else if(auto*C=dyn_cast<FCmpInst>(&I)){ x.op=I_FCMP; x.sub=C->getPredicate(); x.a=opd(C->getOperand(0)); x.b=opd(C->getOperand(1)); x.w2=W(C->getOperand(0)->getType()); }
    else if(auto*C=dyn_cast<CastInst>(&I)){ x.a=opd(C->getOperand(0)); x.w2=W(C->getOperand(0)->getType());
      switch(C->getOpcode()){ case Instruction::ZExt:x.op=I_ZEXT;break;case Instruction::SExt:x.op=I_SEXT;break;case Instruction::Trunc:x.op=I_TRUNC;break;case Instruction::FPExt:x.op=I_FPEXT;break;case Instruction::FPTrunc:x.op=I_FPTRUNC;break;case Instruction::SIToFP:x.op=I_SI2F;break;case Instruction::UIToFP:x.op=I_UI2F;break;case Instruction::FPToSI:x.op=I_F2SI;break;case Instruction::FPToUI:x.op=I_F2UI;break;
        case Instruction::BitCast:case Instruction::PtrToInt:case Instruction::IntToPtr: x.op=I_COPY; if(x.w!=x.w2&&x.op==I_COPY) x.op=x.w<x.w2?I_TRUNC:I_ZEXT; break; default:; } }
    else if(isa<FreezeInst>(&I)){ x.op=I_COPY; x.a=opd(I.getOperand(0)); x.flag=true; }
    else if(auto*A=dyn_cast<AllocaInst>(&I)){ x.op=I_ALLOCA; x.imm=DL->getTypeAllocSize(A->getAllocatedType()); x.a=opd(A->getArraySize()); x.w2=W(A->getArraySize()->getType()); }
    else if(auto*L=dyn_cast<LoadInst>(&I)){ x.op=I_LOAD; x.a=opd(L->getPointerOperand()); flat(L->getType(),x.ws); flatOff(L->getType(),0,x.scl); x.flag=L->isAtomic(); }
    else if(auto*S=dyn_cast<StoreInst>(&I)){ x.op=I_STORE; x.a=opd(S->getPointerOperand()); x.b=opd(S->getValueOperand()); flat(S->getValueOperand()->getType(),x.ws); flatOff(S->getValueOperand()->getType(),0,x.scl); x.flag=S->isAtomic(); }
    else if(auto*R=dyn_cast<AtomicRMWInst>(&I)){ x.op=I_ATOMICRMW; x.a=opd(R->getPointerOperand()); x.b=opd(R->getValOperand()); x.sub=R->getOperation(); }
    else if(auto*R=dyn_cast<AtomicCmpXchgInst>(&I)){ x.op=I_CMPXCHG; x.a=opd(R->getPointerOperand()); x.b=opd(R->getCompareOperand()); x.d=opd(R->getNewValOperand()); }
    else if(isa<FenceInst>(&I)) x.op=I_FENCE;
    else if(auto*G=dyn_cast<GetElementPtrInst>(&I)){ x.op=I_GEP; x.a=opd(G->getPointerOperand()); u64 off=0;
      for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(StructType*S=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(S)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); }
        else { u64 sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*CI=dyn_cast<ConstantInt>(ix)) off+=sz*(u64)CI->getSExtValue(); else { x.ops.push_back(opd(ix)); x.scl.push_back(sz); x.ws.push_back(W(ix->getType())); } } }
      x.imm=off; }
    else if(auto*Br=dyn_cast<BranchInst>(&I)){ if(Br->isUnconditional()){ x.op=I_BR; x.e1=mkEdge(&B,Br->getSuccessor(0)); } else { x.op=I_CBR; x.a=opd(Br->getCondition()); x.e1=mkEdge(&B,Br->getSuccessor(0)); x.e2=mkEdge(&B,Br->getSuccessor(1)); } }
    else if(auto*S=dyn_cast<SwitchInst>(&I)){ x.op=I_SWITCH; x.a=opd(S->getCondition()); x.w2=W(S->getCondition()->getType()); x.e1=mkEdge(&B,S->getDefaultDest()); for(auto&c:S->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(),mkEdge(&B,c.getCaseSuccessor())}); }
    else if(auto*R=dyn_cast<ReturnInst>(&I)){ x.op=I_RET; x.n=R->getReturnValue()?leaves(R->getReturnValue()->getType()):0; if(x.n) x.a=opd(R->getReturnValue()); }
    else if(isa<UnreachableInst>(&I)) x.op=I_UNREACH;
    else if(auto*S=dyn_cast<SelectInst>(&I)){ x.op=I_SELECT; x.a=opd(S->getCondition()); x.b=opd(S->getTrueValue()); x.d=opd(S->getFalseValue()); flat(S->getType(),x.ws); x.flag=S->getCondition()->getType()->isVectorTy(); }
    else if(auto*E=dyn_cast<ExtractValueInst>(&I)){ x.op=I_COPY; Type*t=E->getAggregateOperand()->getType(); int o=0; for(unsigned ix:E->indices()){ for(unsigned k=0;k<ix;k++) o+=leaves(t->isStructTy()?t->getStructElementType(k):t->getArrayElementType()); t=t->isStructTy()?t->getStructElementType(ix):t->getArrayElementType(); } int s=opd(E->getAggregateOperand()); x.a=s>=0?s+o:s-o; }
    else if(auto*E=dyn_cast<InsertValueInst>(&I)){ x.op=I_INSERTV; Type*t=E->getAggregateOperand()->getType(); int o=0; for(unsigned ix:E->indices()){ for(unsigned k=0;k<ix;k++) o+=leaves(t->isStructTy()?t->getStructElementType(k):t->getArrayElementType()); t=t->isStructTy()?t->getStructElementType(ix):t->getArrayElementType(); } x.a=opd(E->getAggregateOperand()); x.b=opd(E->getInsertedValueOperand()); x.imm=o; x.w2=leaves(t); }
    else if(auto*E=dyn_cast<ExtractElementInst>(&I)){ if(auto*ci=dyn_cast<ConstantInt>(E->getIndexOperand())){ x.op=I_COPY; int s=opd(E->getVectorOperand()),o=(int)ci->getZExtValue(); x.a=s>=0?s+o:s-o; } }
    else if(auto*E=dyn_cast<InsertElementInst>(&I)){ if(auto*ci=dyn_cast<ConstantInt>(E->getOperand(2))){ x.op=I_INSERTV; x.a=opd(E->getOperand(0)); x.b=opd(E->getOperand(1)); x.imm=ci->getZExtValue(); x.w2=1; } }
    else if(auto*C=dyn_cast<CallBase>(&I)){ x.op=I_CALL; Value*cv=C->getCalledOperand()->stripPointerCasts(); if(auto*A=dyn_cast<GlobalAlias>(cv)) cv=A->getAliasee()->stripPointerCasts();
      if(auto*cf=dyn_cast<Function>(cv)){ x.name=cf->getName().str(); Fn*t=fnOf[cf]; if(cf->isDeclaration()){ if(Function*al=aliasOf(cf)){ x.callee=fnOf[al]; x.name=al->getName().str(); } else x.ext=extOf(x.name); } else x.callee=t; }
      else { x.name="<indirect>"; x.a=opd(C->getCalledOperand()); x.flag=true; }
      if(x.ext==X_MATH1||x.ext==X_MATH2){ auto has=[&](const char*s){return x.name.find(s)!=std::string::npos;};
        if(has("pow")) x.m2=pow; else if(has("fmod")) x.m2=fmod; else if(has("log2")) x.m1=log2; else if(has("log10")) x.m1=log10; else if(has("log")) x.m1=log; else if(has("exp2")) x.m1=exp2; else if(has("exp")) x.m1=exp; else if(has("round")) x.m1=round; }
      for(unsigned i=0;i<C->arg_size();i++){ Value*a=C->getArgOperand(i); if(a->getType()->isMetadataTy()){ x.ops.push_back(~(int)f->consts.size()); f->consts.push_back({0,nullptr}); x.ws.push_back(64); x.byval.push_back(0); continue; } int s=opd(a); std::vector<int> w; flat(a->getType(),w); for(size_t k=0;k<w.size();k++){ x.ops.push_back(s>=0?s+(int)k:s-(int)k); x.ws.push_back(w[k]); x.byval.push_back(k==0&&C->isByValArgument(i)?(u64)DL->getTypeAllocSize(C->getParamByValType(i)):0); } }
      if(auto*inv=dyn_cast<InvokeInst>(&I)){ x.e1=mkEdge(&B,inv->getNormalDest()); } }
    f->code.push_back(std::move(x));
  }
  return f;
}

// ---------------------------------------------------------------- path condition + solver
struct PCN { PCN*up; Expr*e; int depth; bool implied; };
static Z3_solver S; static std::vector<PCN*> asserted; static PCN*marked=nullptr;
static u64 nQ=0,nSat=0,nUnsat=0,nUnk=0,nRetry=0; static double tSolver=0;
static void setTimeout(Z3_solver s,unsigned ms){ Z3_params p=Z3_mk_params(X.z3); Z3_params_inc_ref(X.z3,p); Z3_params_set_uint(X.z3,p,Z3_mk_string_symbol(X.z3,"timeout"),ms); Z3_solver_set_params(X.z3,s,p); Z3_params_dec_ref(X.z3,p); }
static void markExpr(Expr*e,int v){ if(e->op==E_NOT){ e->a->pcm=(int8_t)-v; } e->pcm=(int8_t)v; Expr*n=nullptr; if(e->op==E_ULT||e->op==E_ULE||e->op==E_SLT||e->op==E_SLE){ n=X.not1(e); if(n->op!=E_CONST) n->pcm=(int8_t)-v; } }
static void markTo(PCN*t){
  if(marked==t) return; std::vector<PCN*> add; PCN*m=marked,*n=t;
  while(m!=n){ int dm=m?m->depth:0,dn=n?n->depth:0; if(dm>=dn&&m){ markExpr(m->e,0); m=m->up; } else { add.push_back(n); n=n->up; } }
  for(size_t i=add.size();i--;) markExpr(add[i]->e,1);
  // unmarking may have cleared an expression still present higher up only if it was duplicated; duplicates are never added
  marked=t; }
static void syncTo(PCN*t){
  std::vector<PCN*> ch; for(PCN*n=t;n;n=n->up) if(!n->implied) ch.push_back(n); std::reverse(ch.begin(),ch.end());
  size_t k=0; while(k<asserted.size()&&k<ch.size()&&asserted[k]==ch[k]) k++;
  if(asserted.size()>k){ Z3_solver_pop(X.z3,S,(unsigned)(asserted.size()-k)); asserted.resize(k); }
  for(;k<ch.size();k++){ Z3_solver_push(X.z3,S); Z3_solver_assert(X.z3,S,X.toZ(ch[k]->e)); asserted.push_back(ch[k]); } }

// ---------------------------------------------------------------- state
struct Frame { Fn*fn; int pc; int base; int retDst; int retN; std::vector<u32> allocas; bool ctor=false; u32 va=0; };
struct Acc { uint8_t wT,rT; }; 
struct Thr { std::vector<Frame> fr; std::vector<Val> regs; int status=0; /*0 ready 1 barrier 2 done*/ u32 locks=0; };
struct AccRec { int tid; bool wr; u32 locks; const Inst*in; Fn*fn; };
struct Omp { int T=0; int cur=0; int phase=0; std::vector<Thr> th; std::vector<Frame> mfr; std::vector<Val> mregs; std::map<u64,std::vector<AccRec>> log; std::vector<u64> privIds; std::map<std::pair<int,u64>,int> singles; };
struct State { std::vector<Obj*> objs; std::vector<Frame> fr; std::vector<Val> regs; PCN*pc=nullptr; u64 km[4]={0,0,0,0}; std::vector<u64> kv; std::vector<u64> model; std::vector<Expr*> inputs; std::vector<std::pair<uint8_t,Val>> outs; u64 icount=0; u64 heapLive=0; std::shared_ptr<Omp> omp; int tid=0; int ompThreads=2; bool descTid=false; long failAt=-1; long allocNo=0; u32 locks=0; u32 mainObjs=0; u64 heapBytes=0; int undefs=0; u32 reached=0; int enums=0;
  State(){}
  State(const State&o):objs(o.objs),fr(o.fr),regs(o.regs),pc(o.pc),kv(o.kv),model(o.model),inputs(o.inputs),outs(o.outs),icount(o.icount),heapLive(o.heapLive),tid(o.tid),ompThreads(o.ompThreads),descTid(o.descTid),failAt(o.failAt),allocNo(o.allocNo),locks(o.locks),mainObjs(o.mainObjs),heapBytes(o.heapBytes),undefs(o.undefs),reached(o.reached),enums(o.enums){ memcpy(km,o.km,sizeof km); for(auto*x:objs) x->rc++; if(o.omp) omp=std::make_shared<Omp>(*o.omp); }
  ~State(){ for(auto*x:objs) if(--x->rc==0) delete x; }
  Obj* w(u32 id){ Obj*o=objs[id]; if(o->rc>1){ o->rc--; o=cloneObj(o); objs[id]=o; } return o; } };
static std::vector<State*> work; static State*st;
struct PathEnd{}; struct Retry{};
static u64 pathsDone=0,pathsKilled=0,instTotal=0,branches=0,forksLocal=0,assertsChecked=0,assertQueries=0,unsupported=0,concretized=0;
struct Viol { std::string kind,id,loc,stack; std::vector<u64> in; std::string sig; };
static std::vector<Viol> viols; static std::map<std::string,std::vector<std::vector<u64>>> reach; static std::map<std::string,u64> reachCnt; static std::map<std::string,u64> assertCnt; static std::set<std::string> notes; static std::map<std::string,int> violCnt;
struct Sample { std::vector<u64> in; std::vector<u64> out; }; static std::vector<Sample> samples; static bool incomplete=false; static std::map<std::string,u64> incReasons; static std::map<std::string,u64> fnIn;
static void setIncomplete(const std::string&r){ incomplete=true; incReasons[r]++; sh->incomplete=1; }

static std::string locOf(const Inst*in,Fn*f){ std::string s=f->name; if(in&&in->I){ if(auto&dl=in->I->getDebugLoc()){ auto*sc=dl->getScope(); s+=" "+(sc?sc->getFilename().str():std::string("?"))+":"+std::to_string(dl.getLine()); DILocation*ia=dl->getInlinedAt(); (void)ia; } } return s; }
static std::string stackOf(){ std::string s; for(size_t i=st->fr.size();i--;){ Frame&f=st->fr[i]; if(!s.empty()) s+=" < "; const Inst*in=f.pc<(int)f.fn->code.size()?&f.fn->code[f.pc]:nullptr; if(i+1<st->fr.size()&&f.pc>0) in=&f.fn->code[f.pc-1]; s+=locOf(in,f.fn); if(s.size()>700) break; } return s; }
static std::vector<u64> inputsOf(State*s,const std::vector<u64>&m){ std::vector<u64> v; for(auto*e:s->inputs){ v.push_back(X.eval(e,m)); } return v; }
static void addPC(Expr*e,bool implied=false){
  if(e->op==E_CONST) return; markTo(st->pc); if(e->pcm==1) return;
  if(e->op==E_AND&&e->w==1){ addPC(e->a,implied); addPC(e->b,implied); return; }
  st->pc=new PCN{st->pc,e,st->pc?st->pc->depth+1:1,implied}; markTo(st->pc);
  // learn variable values
  if(e->op==E_EQ&&e->a->op==E_VAR&&e->b->op==E_CONST&&e->a->c<256){ u64 v=e->a->c; st->km[(v>>6)&3]|=1ull<<(v&63); if(st->kv.size()<=v) st->kv.resize(v+1); st->kv[v]=e->b->c; }
  else if(e->op==E_VAR&&e->c<256){ u64 v=e->c; st->km[(v>>6)&3]|=1ull<<(v&63); if(st->kv.size()<=v) st->kv.resize(v+1); st->kv[v]=1; }
  else if(e->op==E_NOT&&e->a->op==E_VAR&&e->a->c<256){ u64 v=e->a->c; st->km[(v>>6)&3]|=1ull<<(v&63); if(st->kv.size()<=v) st->kv.resize(v+1); st->kv[v]=0; }
}
static inline Expr* simp(Expr*e){ return X.simp(e,st->km,st->kv); }
static PCN*lastPC=(PCN*)1;
static Expr* simpPC(Expr*e){ e=simp(e); if(e->op==E_CONST) return e; markTo(st->pc); bool fresh=lastPC!=st->pc; lastPC=st->pc; return X.simpPC(e,fresh); }
// query PC && cond ; on sat fills model
static std::string stackOf();
// The constraints that share variables with the condition, directly or not, decide it: equal slices give equal verdicts.
struct QKey { std::vector<u32> k; bool operator==(const QKey&o)const{ return k==o.k; } };
struct QHash { size_t operator()(const QKey&q)const{ u64 h=1469598103934665603ull; for(u32 x:q.k){ h^=x; h*=1099511628211ull; h^=h>>31; } return h; } };
struct QVal { int res; std::vector<std::pair<u32,u64>> m; };
static std::unordered_map<QKey,QVal,QHash> qcache; static u64 nCache=0;
static bool slice(Expr*cond,QKey&key,u64*sup){
  if(X.vars.size()>256) return false;
  u64 known[4]={0,0,0,0}; for(int i=0;i<4;i++){ sup[i]=cond->sup[i]&~st->km[i]; known[i]=cond->sup[i]&st->km[i]; }
  static std::vector<Expr*> lits; lits.clear(); for(PCN*q=st->pc;q;q=q->up) if(!q->implied) lits.push_back(q->e);
  key.k.clear(); for(bool ch=true;ch;){ ch=false; for(auto&l:lits) if(l){ bool hit=false; for(int i=0;i<4;i++) hit|=(l->sup[i]&~st->km[i]&sup[i])!=0; if(!hit) continue; key.k.push_back(l->id); for(int i=0;i<4;i++){ sup[i]|=l->sup[i]&~st->km[i]; known[i]|=l->sup[i]&st->km[i]; } l=nullptr; ch=true; } }
  std::sort(key.k.begin(),key.k.end()); key.k.push_back(cond->id); key.k.push_back(0xffffffffu);
  for(int i=0;i<4;i++) for(u64 b=known[i];b;b&=b-1){ u32 v=(u32)(i*64+__builtin_ctzll(b)); key.k.push_back(v); key.k.push_back((u32)st->kv[v]); key.k.push_back((u32)(st->kv[v]>>32)); }
  return true; }
static bool supHit(Expr*e,Expr*v){ return (e->sup[(v->c>>6)&3]>>(v->c&63))&1; }
// Look for a satisfying assignment among boundary values (evaluated, so a hit is one); for conditions the solver finds hard.
static u64 nGuess=0,guessRng=88172645463325252ull;
static u64 grnd(){ guessRng^=guessRng<<13; guessRng^=guessRng>>7; guessRng^=guessRng<<17; return guessRng; }
static bool guess(Expr*cond,int tries,std::vector<u64>&model){
  std::vector<Expr*> vs; for(auto*v:st->inputs) if(v->op==E_VAR&&supHit(cond,v)&&!((st->km[(v->c>>6)&3]>>(v->c&63))&1)) vs.push_back(v);
  if(vs.empty()||X.vars.size()>256) return false; std::vector<Expr*> lits; for(PCN*q=st->pc;q;q=q->up) if(!q->implied) lits.push_back(q->e);
  for(int t=0;t<tries;t++){ model=st->model; int nch=t%3==2?(int)vs.size():1+(int)(grnd()%vs.size());
    for(int k=0;k<nch;k++){ Expr*v=nch==(int)vs.size()?vs[k]:vs[grnd()%vs.size()]; u64 m=v->w>=64?~0ull:(1ull<<v->w)-1,h=1ull<<(v->w-1),x;
      switch(grnd()%12){ case 0:x=0;break; case 1:x=1;break; case 2:x=m;break; case 3:x=h;break; case 4:x=h-1;break; case 5:x=h+1;break; case 6:x=v->ulo;break; case 7:x=v->uhi;break; case 8:x=(u64)v->slo;break; case 9:x=(u64)v->shi;break; case 10:x=grnd()%8;break; default:x=grnd(); if(v->uhi-v->ulo!=~0ull) x=v->ulo+x%(v->uhi-v->ulo+1); }
      x&=m; if(model.size()<=v->c) model.resize(v->c+1); model[v->c]=x; }
    bool ok=true; for(auto*v:vs){ u64 x=v->c<model.size()?model[v->c]:0; int64_t sxv=v->w>=64?(int64_t)x:(int64_t)(x<<(64-v->w))>>(64-v->w); if(x<v->ulo||x>v->uhi||sxv<v->slo||sxv>v->shi){ ok=false; break; } }
    if(!ok||!X.eval(cond,model)) continue; for(auto*l:lits) if(!X.eval(l,model)){ ok=false; break; }
    if(ok){ nGuess++; return true; } }
  return false; }
static int query(Expr*cond,std::vector<u64>&model){
  nQ++; double t0=now(); QKey key; u64 sup[4]; bool sl=slice(cond,key,sup);
  if(sl){ auto it=qcache.find(key); if(it!=qcache.end()){ nCache++; if(it->second.res==1){ nSat++; model=st->model; for(auto&v:it->second.m){ if(model.size()<=v.first) model.resize(v.first+1); model[v.first]=v.second; } } else nUnsat++; tSolver+=now()-t0; return it->second.res; } }
  if(cond->fp&&guess(cond,60,model)){ nSat++; tSolver+=now()-t0; return 1; }
  syncTo(st->pc);
  Z3_solver_push(X.z3,S); Z3_solver_assert(X.z3,S,X.toZ(cond)); Z3_lbool r=Z3_solver_check(X.z3,S); Z3_solver T=S;
  if(r==Z3_L_UNDEF&&guess(cond,20000,model)){ Z3_solver_pop(X.z3,S,1); nSat++; tSolver+=now()-t0; return 1; }
  if(r==Z3_L_UNDEF){ // the incremental solver gave up: one fresh bit-blasting solver on the whole condition
    nRetry++; T=Z3_mk_solver_for_logic(X.z3,Z3_mk_string_symbol(X.z3,"QF_BV")); Z3_solver_inc_ref(X.z3,T); setTimeout(T,opt.retryMs);
    for(PCN*q=st->pc;q;q=q->up) if(!q->implied) Z3_solver_assert(X.z3,T,X.toZ(q->e)); Z3_solver_assert(X.z3,T,X.toZ(cond)); r=Z3_solver_check(X.z3,T); }
  int res=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
  if(res==1){ nSat++; Z3_model m=Z3_solver_get_model(X.z3,T); Z3_model_inc_ref(X.z3,m); model=st->model;
    auto getv=[&](Expr*v){ if(v->op!=E_VAR) return; Z3_ast a; if(Z3_model_eval(X.z3,m,X.toZ(v),true,&a)){ u64 val=0; if(v->w==1) val=Z3_get_bool_value(X.z3,a)==Z3_L_TRUE; else Z3_get_numeral_uint64(X.z3,a,&val); if(model.size()<=v->c) model.resize(v->c+1); model[v->c]=val; } };
    for(auto*e:st->inputs) getv(e); if(cond->undef||st->undefs){ for(u64 i=0;i<X.vars.size();i++) if(X.vars[i]->undef) getv(X.vars[i]); }
    Z3_model_dec_ref(X.z3,m); } else if(res==0) nUnsat++; else { nUnk++; setIncomplete("solver-unknown"); }
  if(sl&&res>=0&&qcache.size()<2000000){ QVal&q=qcache[key]; q.res=res; if(res==1) for(int i=0;i<4;i++) for(u64 b=sup[i];b;b&=b-1){ u32 v=(u32)(i*64+__builtin_ctzll(b)); q.m.push_back({v,v<model.size()?model[v]:0}); } }
  if(T!=S) Z3_solver_dec_ref(X.z3,T);
  Z3_solver_pop(X.z3,S,1); { static const char*sl=getenv("VFSE_SLOW"); double dt=now()-t0; if(sl&&dt*1000>atof(sl)) fprintf(stderr,"SLOW %.0fms res %d pc %d cond %s\n   at %s\n",dt*1000,res,st->pc?st->pc->depth:0,X.show(cond,9).c_str(),stackOf().c_str()); }
  tSolver+=now()-t0; return res; }
static void forkWork(size_t keep);
static void pushState(State*s){ work.push_back(s); }
static void report(const std::string&kind,const std::string&id,const std::vector<u64>&model){
  Frame&f=st->fr.back(); std::string loc=locOf(f.pc<(int)f.fn->code.size()?&f.fn->code[f.pc]:nullptr,f.fn); std::string key=kind+"|"+id+"|"+loc; int&c=violCnt[key]; c++; if(c<=opt.maxViol){ Viol v; v.kind=kind;v.id=id;v.loc=loc;v.stack=stackOf();v.in=inputsOf(st,model); viols.push_back(v); __sync_fetch_and_add(&sh->viol,1); if(opt.verbose) fprintf(stderr,"VIOL %s %s %s\n",kind.c_str(),id.c_str(),v.stack.c_str()); } }
[[noreturn]] static void endPath(bool killed){ if(killed) pathsKilled++; throw PathEnd(); }
[[noreturn]] static void violEnd(const std::string&k,const std::string&id){ report(k,id,st->model); endPath(false); }
// decide value of e: fork the alternative (which re-executes this instruction)
static u64 concretize(Expr*e){
  e=simpPC(e); if(e->op==E_CONST) return e->c;
  if(e->undef){ report("uninit","use of uninitialised value",st->model); }
  concretized++; u64 v=X.eval(e,st->model); Expr*eq=X.bin(E_EQ,e,X.K(v,e->w)); Expr*ne=X.not1(eq); std::vector<u64> m2;
  if(e->fp){ // pin the supporting variables instead
    for(auto*iv:st->inputs) if(iv->op==E_VAR&&supHit(e,iv)){ concretize(iv); }
    e=simp(e); if(e->op==E_CONST) return e->c; 
    for(auto*u:X.vars) if(u->undef&&supHit(e,u)) { concretize(u); } e=simp(e); if(e->op==E_CONST) return e->c; setIncomplete("fp-concretize"); return v; }
  markTo(st->pc);
  if(ne->op!=E_CONST&&ne->pcm!=-1){ int r=query(ne,m2); if(r==1){ if(++st->enums>(int)opt.enumLimit){ setIncomplete("enum-limit"); } else { State*o=new State(*st); std::swap(st,o); addPC(ne); st->model=m2; std::swap(st,o); forksLocal++; pushState(o); } addPC(eq); } else { addPC(eq,true); } }
  return v; }
static u64 CV(const Val&v){ if(!v.e) return v.c; return concretize(v.e); }
// branch on a condition: returns true/false for the current state, forks the other side with re-execution? the
// caller supplies nothing: the alternative re-executes the instruction and finds the condition in its path condition.
static bool fpWide(Expr*c){ for(auto*iv:st->inputs) if(iv->op==E_VAR&&iv->w>12&&supHit(c,iv)) return true; return false; }
static void pin(Expr*c){ for(auto*iv:st->inputs) if(iv->op==E_VAR&&supHit(c,iv)) addPC(X.bin(E_EQ,iv,X.K(X.eval(iv,st->model),iv->w))); }
// floating-point condition over wide variables: one query with the floating-point theory; a side that is not refuted is
// continued for the model found only, and the run is marked incomplete
static bool decideWide(Expr*c){
  bool mv=X.eval(c,st->model); Expr*here=mv?c:X.not1(c),*other=mv?X.not1(c):c; std::vector<u64> m2; branches++;
  nQ++; double t0=now(); if(guess(other,3000,m2)){ nSat++; tSolver+=now()-t0; setIncomplete("fp-sampled"); State*o=new State(*st); std::swap(st,o); st->model=m2; pin(c); std::swap(st,o); forksLocal++; pushState(o); pin(c); return mv; }
  Z3_solver T=Z3_mk_solver(X.z3); Z3_solver_inc_ref(X.z3,T); setTimeout(T,opt.queryMs*3);
  for(PCN*q=st->pc;q;q=q->up) if(!q->implied) Z3_solver_assert(X.z3,T,X.toZ(q->e)); Z3_solver_assert(X.z3,T,X.toZ(other)); Z3_lbool r=Z3_solver_check(X.z3,T);
  if(r==Z3_L_TRUE){ nSat++; Z3_model m=Z3_solver_get_model(X.z3,T); Z3_model_inc_ref(X.z3,m); m2=st->model; for(auto*v:st->inputs) if(v->op==E_VAR){ Z3_ast a; if(Z3_model_eval(X.z3,m,X.toZ(v),true,&a)){ u64 val=0; if(v->w==1) val=Z3_get_bool_value(X.z3,a)==Z3_L_TRUE; else Z3_get_numeral_uint64(X.z3,a,&val); if(m2.size()<=v->c) m2.resize(v->c+1); m2[v->c]=val; } } Z3_model_dec_ref(X.z3,m); }
  else if(r==Z3_L_FALSE) nUnsat++; else nUnk++;
  Z3_solver_dec_ref(X.z3,T); tSolver+=now()-t0;
  if(r==Z3_L_FALSE){ addPC(here,true); return mv; }
  setIncomplete(r==Z3_L_TRUE?"fp-sampled":"fp-unknown");
  if(r==Z3_L_TRUE){ bool ok=X.eval(other,m2)!=0; if(ok){ State*o=new State(*st); std::swap(st,o); st->model=m2; pin(c); std::swap(st,o); forksLocal++; pushState(o); } }
  pin(c); return mv; }
static bool decide(Expr*c){
  c=simpPC(c); if(c->op==E_CONST) return c->c;
  if(c->op==E_NOT) return !decide(c->a);
  if(c->undef){ report("uninit","branch on uninitialised value",st->model); endPath(false); }
  markTo(st->pc); if(c->pcm==1) return true; if(c->pcm==-1) return false;
  if(c->fp&&fpWide(c)) return decideWide(c);
  if(c->fp){ for(auto*iv:st->inputs) if(iv->op==E_VAR&&supHit(c,iv)){ concretize(iv); c=simp(c); if(c->op==E_CONST) return c->c; } }
  if(c->w==1&&(c->op==E_AND||c->op==E_OR)&&0){}
  branches++; bool mv=X.eval(c,st->model); Expr*here=mv?c:X.not1(c); Expr*other=mv?X.not1(c):c; std::vector<u64> m2; int r=query(other,m2);
  if(r==1){ State*o=new State(*st); std::swap(st,o); addPC(other); st->model=m2; std::swap(st,o); forksLocal++; pushState(o); addPC(here); }
  else addPC(here,r==0);
  return mv; }
static Expr* EX(const Val&v,int w){ return v.e?v.e:X.K(v.c,w); }
static Val VX(Expr*e){ if(e->op==E_CONST) return {e->c,nullptr}; return {0,e}; }

// ---------------------------------------------------------------- memory access
static void logAccess(u32 id,u64 off,u64 n,bool wr,bool atomic){
  Omp&o=*st->omp; if(id>=st->mainObjs) { // allocated inside the region: private unless shared through memory; track too
  }
  Frame&f=st->fr.back(); const Inst*in=&f.fn->code[f.pc]; u32 lk=st->locks|(atomic?0x80000000u:0);
  for(u64 k=0;k<n;k++){ auto&v=o.log[mkaddr(id,off+k)]; 
    for(auto&r:v) if(r.tid!=st->tid&&(r.wr||wr)&&!(r.locks&lk)){ std::string d="race: "+locOf(in,f.fn)+(wr?" writes":" reads")+" what "+locOf(r.in,r.fn)+(r.wr?" writes":" reads")+" in another thread"; violEnd("race",d); }
    bool have=false; for(auto&r:v) if(r.tid==st->tid&&r.locks==lk&&(r.wr||!wr)){ have=true;break; } if(!have) v.push_back({st->tid,wr,lk,in,f.fn}); } }
static Obj* access(u64 addr,u64 n,bool wr,u32&id,u64&off){
  id=(u32)(addr>>OFFB); off=addr&OFFM;
  if(addr<4096) violEnd("null-deref",wr?"write through null pointer":"read through null pointer");
  if(id>=st->objs.size()||id==0) violEnd("wild-pointer","access outside any object");
  Obj*o=st->objs[id];
  if(o->dead) violEnd(o->kind==OK_STACK?"use-after-scope":"use-after-free",wr?"write to dead object":"read from dead object");
  if(off+n>o->size||o->kind==OK_FUNC){ violEnd("out-of-bounds",std::string(wr?"write":"read")+" of "+std::to_string(n)+" bytes at offset "+std::to_string((long long)(off>(OFFM>>1)?(long long)off-(1ll<<OFFB):(long long)off))+" of "+std::to_string(o->size)+"-byte "+(o->kind==OK_HEAP?"heap":o->kind==OK_STACK?"stack":"global")+" object"); }
  if(wr&&o->ro) violEnd("write-readonly","write to constant");
  return o; }
static Val ldBytes(Obj*o,u64 off,int w){
  u64 n=(w+7)/8; uint8_t*fl=o->flag+off; bool any=false; for(u64 i=0;i<n;i++) any|=fl[i]!=0;
  if(!any){ u64 c=0; memcpy(&c,o->data+off,n); return {c&mask(w),nullptr}; }
  // same expr?
  if(fl[0]==2){ Expr*e=o->sym[off].e; if(o->sym[off].i==0&&e->w==n*8){ bool ok=true; for(u64 i=1;i<n&&ok;i++) ok=fl[i]==2&&o->sym[off+i].e==e&&o->sym[off+i].i==i; if(ok) return VX(simp(w==(int)n*8?e:X.extract(e,0,w))); } }
  Expr*r=nullptr; Expr*ud=nullptr;
  for(u64 i=0;i<n;i++){ Expr*b; if(fl[i]==0) b=X.K(o->data[off+i],8); else if(fl[i]==2) b=X.extract(o->sym[off+i].e,o->sym[off+i].i*8,8); else { if(!opt.checkUninit) b=X.K(0xA5,8); else { ud=undefVal(8).e; b=ud; st->undefs=1; } } r=r?X.concat(b,r):b; }
  if((int)r->w>w) r=X.extract(r,0,w);
  return VX(simp(r)); }
static void stBytes(Obj*o,u64 off,Val v,int w){
  u64 n=(w+7)/8; if(!v.e){ memcpy(o->data+off,&v.c,n); memset(o->flag+off,0,n); return; }
  Expr*e=v.e; if((u64)w<n*8) e=X.zext(e,(unsigned)n*8);
  if(!o->sym) o->sym=(SymB*)calloc((o->size+15)&~7ull,sizeof(SymB));
  if(e->op==E_VAR&&e->undef){ memset(o->flag+off,1,n); return; }
  for(u64 i=0;i<n;i++){ o->flag[off+i]=2; o->sym[off+i]={e,(uint8_t)i}; } }
// symbolic address: check bounds relative to the object the model points to, then enumerate
static u64 addrOf(Val a,u64 n,bool wr){
  if(!a.e) return a.c; Expr*e=simp(a.e); if(e->op==E_CONST) return e->c;
  if(e->undef){ violEnd("uninit","uninitialised pointer dereferenced"); }
  u64 v=X.eval(e,st->model); u32 id=(u32)(v>>OFFB); if(id<st->objs.size()&&id&&!st->objs[id]->dead&&!e->fp){ Obj*o=st->objs[id]; u64 off=v&OFFM; if(off+n<=o->size){ // could it be out of bounds?
      Expr*lo=X.K(mkaddr(id,0),64),*hi=X.K(mkaddr(id,o->size-n),64); Expr*in=X.bin(E_AND,X.bin(E_ULE,lo,e),X.bin(E_ULE,e,hi)); if(in->op!=E_CONST){ decide(in); } } }
  return concretize(e); }
static u32 allocObj(OK k,u64 size,bool init){ Obj*o=newObj(k,size,init); st->objs.push_back(o); u32 id=(u32)st->objs.size()-1; if(st->objs.size()>(1u<<22)) { setIncomplete("object-limit"); endPath(true);} return id; }
static u64 heapAlloc(u64 size,bool init){ if(size>(1ull<<33)) return 0; st->allocNo++; if(st->failAt>=0&&st->allocNo==st->failAt+1){ return 0; } u32 id=allocObj(OK_HEAP,size,init); st->heapLive++; return mkaddr(id,0); }
static void heapFree(u64 p,int how=0){ if(!p) return; u32 id=(u32)(p>>OFFB); u64 off=p&OFFM; if(p<4096||id>=st->objs.size()||st->objs[id]->kind!=OK_HEAP||off) violEnd("invalid-free","free of a pointer that is not a heap block"); if(st->objs[id]->dead) violEnd("double-free","block freed twice"); if(st->objs[id]->how!=how) violEnd("mismatched-free","block released by another kind of function than the one it came from");
  if(st->omp&&st->omp->T) logAccess(id,0,std::min<u64>(st->objs[id]->size,8),true,false);
  Obj*n=new Obj; n->kind=OK_HEAP;n->dead=true;n->size=st->objs[id]->size; Obj*o=st->objs[id]; if(--o->rc==0) delete o; st->objs[id]=n; st->heapLive--; }
static void killStack(u32 id){ Obj*o=st->objs[id]; Obj*n=new Obj; n->kind=OK_STACK; n->dead=true; n->size=o->size; if(--o->rc==0) delete o; st->objs[id]=n; }

// ---------------------------------------------------------------- sprintf length model
// Longest output a conversion can produce; numeric arguments are taken at their largest representable magnitude.
static std::string cstr(u64 p,bool&ok){ std::string s; ok=true; u32 id=(u32)(p>>OFFB); u64 off=p&OFFM; if(id==0||id>=st->objs.size()||st->objs[id]->dead){ ok=false; return s; } Obj*o=st->objs[id]; while(off<o->size){ if(o->flag[off]!=0){ ok=false; return s; } if(!o->data[off]) return s; s+=(char)o->data[off++]; } ok=false; return s; }
static u64 strLenSym(u64 p){ u32 id; u64 off; u64 n=0; for(;;){ Obj*o=access(p+n,1,false,id,off); Val v=ldBytes(o,off,8); if(v.e){ if(decide(X.bin(E_EQ,v.e,X.K(0,8)))) return n; } else if(!v.c) return n; n++; } }
#include "vfprintf.inc"
#include "exec.inc"
