static inline Val getv(int s){ Frame&f=st->fr.back(); if(s>=0) return st->regs[f.base+s]; return f.fn->consts[~s]; }
static Val G(int s){ Frame&f=st->fr.back(); if(s<0) return f.fn->consts[~s]; Val&v=st->regs[f.base+s]; if(v.e){ Expr*e=simp(v.e); if(e!=v.e) v=VX(e); } return v; }
static inline void SETR(int dst,Val v){ st->regs[st->fr.back().base+dst]=v; }
static void takeEdge(Edge*e){ Frame&f=st->fr.back(); if(!e->cp.empty()){ if(e->cp.size()==1){ st->regs[f.base+e->cp[0].first]=getv(e->cp[0].second); } else { Val tmp[64]; std::vector<Val> big; Val*t=tmp; if(e->cp.size()>64){ big.resize(e->cp.size()); t=big.data(); } for(size_t i=0;i<e->cp.size();i++) t[i]=getv(e->cp[i].second); for(size_t i=0;i<e->cp.size();i++) st->regs[f.base+e->cp[i].first]=t[i]; } } f.pc=e->pc; }
static void pushFrame(Fn*fn,const std::vector<Val>&args,int retDst,int retN){ Frame f; f.fn=fn; f.pc=0; f.base=(int)st->regs.size(); f.retDst=retDst; f.retN=retN; st->regs.resize(f.base+fn->nregs); size_t n=fn->argW.size(); for(size_t i=0;i<n&&i<args.size();i++) st->regs[f.base+i]=args[i]; st->fr.push_back(std::move(f)); fn->execd++; if(st->fr.size()>2000) violEnd("stack-overflow","unbounded recursion"); }
static std::map<std::tuple<int,int64_t,int64_t,int>,Expr*> inVars;
static Expr* inputVar(int idx,int w,int64_t lo,int64_t hi,bool ranged){
  auto key=std::make_tuple(idx*128+w,lo,hi,(int)ranged); auto&e=inVars[key]; if(!e){ e=X.var(w); if(ranged){ if(lo>=0){ e->ulo=(u64)lo;e->uhi=(u64)hi; if(w<64&&(u64)hi<(1ull<<(w-1))){ e->slo=lo;e->shi=hi; } else if(w==64){ e->slo=lo;e->shi=hi; } } else { e->slo=lo;e->shi=hi; } } } return e; }
static u64 ld64(u64 a,int w){ u32 id;u64 off; Obj*o=access(a,(w+7)/8,false,id,off); Val v=ldBytes(o,off,w); return CV(v); }
static void st64(u64 a,int w,u64 c){ u32 id;u64 off; access(a,(w+7)/8,true,id,off); stBytes(st->w(id),off,{c,nullptr},w); }
static void finishPath();
static void threadSwitch(){ // current thread blocked or done: pick the next one
  Omp&o=*st->omp; std::swap(o.th[o.cur].fr,st->fr); std::swap(o.th[o.cur].regs,st->regs); o.th[o.cur].locks=st->locks;
  for(;;){ int nx=-1; for(int k=0;k<o.T;k++){ int i=st->descTid?o.T-1-k:k; if(o.th[i].status==0){ nx=i; break; } }
    if(nx<0){ bool bar=false; for(auto&t:o.th) if(t.status==1){ bar=true; } if(bar){ for(auto&t:o.th) if(t.status==1) t.status=0; o.phase++; o.log.clear(); continue; } break; }
    o.cur=nx; st->tid=nx; std::swap(o.th[nx].fr,st->fr); std::swap(o.th[nx].regs,st->regs); st->locks=o.th[nx].locks; return; }
  // region over
  st->fr=std::move(o.mfr); st->regs=std::move(o.mregs); st->omp.reset(); st->tid=0; st->locks=0; }
static bool regionActive(){ return st->omp&&st->omp->T>0; }
static void memcpyImpl(u64 d,u64 s,u64 n){ if(!n) return; u32 ids,idd; u64 os,od; access(s,n,false,ids,os); access(d,n,true,idd,od); if(regionActive()){ logAccess(ids,os,n,false,false); logAccess(idd,od,n,true,false);} Obj*D=st->w(idd); Obj*Sx=st->objs[ids];
  bool sym=false; for(u64 i=0;i<n&&!sym;i++) sym=Sx->flag[os+i]==2; if(sym&&!D->sym) D->sym=(SymB*)calloc((D->size+15)&~7ull,sizeof(SymB));
  memmove(D->data+od,Sx->data+os,n); memmove(D->flag+od,Sx->flag+os,n); if(sym) memmove(D->sym+od,Sx->sym+os,n*sizeof(SymB)); }
static Val fclassChk(Val a,int w,u64 m){ // llvm.is.fpclass
  Expr*e=EX(a,w); Expr*zero=X.K(0,w); (void)zero; Expr*r=X.B(false); Expr*inf=X.K(w==64?ofD(INFINITY):ofF(INFINITY),w),*ninf=X.K(w==64?ofD(-INFINITY):ofF(-INFINITY),w);
  if(m&3) r=X.bin(E_OR,r,X.fcmp(E_FUNO,e,e)); if(m&4) r=X.bin(E_OR,r,X.fcmp(E_FEQ,e,ninf)); if(m&512) r=X.bin(E_OR,r,X.fcmp(E_FEQ,e,inf)); if(m&~(u64)(3|4|512)) { if((m&0x3ff)==0x1f8){ Expr*f=X.not1(X.bin(E_OR,X.fcmp(E_FUNO,e,e),X.bin(E_OR,X.fcmp(E_FEQ,e,inf),X.fcmp(E_FEQ,e,ninf)))); r=X.bin(E_OR,r,f);} else setIncomplete("fpclass"); } return VX(r); }
static bool doExt(Inst&x,const std::vector<Val>&A); // returns true if control already moved (frame pushed / thread switch)
static void doCall(Inst&x){
  std::vector<Val> A; A.reserve(x.ops.size()); for(size_t i=0;i<x.ops.size();i++) A.push_back(G(x.ops[i]));
  Fn*t=x.callee; int ext=x.ext;
  if(x.flag){ Val f=G(x.a); u64 p=addrOf(f,0,false); auto it=fnByObj.find((u32)(p>>OFFB)); if(p<4096) violEnd("null-call","call through null function pointer"); if(it==fnByObj.end()||(p&OFFM)) violEnd("wild-call","call through a pointer that is not a function"); t=it->second; if(t->decl){ x.name=t->name; ext=extOf(t->name); t=nullptr; if(ext==X_MATH1||ext==X_MATH2) ext=X_UNKNOWN; } }
  if(t){ for(size_t i=0;i<A.size();i++) if(i<x.byval.size()&&x.byval[i]){ u64 sz=x.byval[i]; u64 src=CV(A[i]); u32 id=allocObj(OK_STACK,sz,false); memcpyImpl(mkaddr(id,0),src,sz); A[i]={mkaddr(id,0),nullptr}; st->fr.back().allocas.push_back(id); }
    Frame&f=st->fr.back(); f.pc++; pushFrame(t,A,x.dst,x.n); size_t nn=t->argW.size();
    if(t->F->isVarArg()&&A.size()>nn){ u32 id=allocObj(OK_STACK,8*(A.size()-nn),false); for(size_t i=nn;i<A.size();i++){ int w=A[i].e?A[i].e->w:64; if(w>64){ setIncomplete("wide-vararg"); endPath(true); } stBytes(st->w(id),8*(i-nn),A[i],(w+7)/8*8==w?w:64); } st->fr.back().va=id; st->fr.back().allocas.push_back(id); }
    return; }
  int keep=x.ext; x.ext=ext; bool moved; moved=doExt(x,A); x.ext=keep; if(!moved) st->fr.back().pc++; }
static bool doExt(Inst&x,const std::vector<Val>&A){
  auto ret=[&](Val v){ if(x.n>=1) SETR(x.dst,v); };
  auto retc=[&](u64 c){ ret({c,nullptr}); };
  switch(x.ext){
  case X_VF_IN:{ int w=(int)CV(A[0]); Expr*e=inputVar((int)st->inputs.size(),w,0,0,false); st->inputs.push_back(e); if(st->model.size()<=e->c) st->model.resize(e->c+1); st->model[e->c]=0; ret(VX(X.zext(e,64))); return false; }
  case X_VF_RANGE:{ int64_t lo=(int64_t)CV(A[0]),hi=(int64_t)CV(A[1]); if(lo>hi){ endPath(true);} if(lo==hi){ st->inputs.push_back(X.K((u64)lo,64)); retc((u64)lo); return false; }
    int w; if(lo>=0){ w=1; while(w<64&&((u64)hi>>w)) w++; } else { w=1; while(w<64&&!(lo>=-(1ll<<(w-1))&&hi<=(1ll<<(w-1))-1)) w++; } if(w==1) w=2;
    Expr*e=inputVar((int)st->inputs.size(),w,lo,hi,true); st->inputs.push_back(e); if(st->model.size()<=e->c) st->model.resize(e->c+1); st->model[e->c]=(u64)lo&mask(w);
    // range constraint, asserted without query (the default model satisfies it)
    Expr*c1=lo>=0?X.raw(E_ULE,1,0,X.K((u64)lo,w),e):X.raw(E_SLE,1,0,X.K((u64)lo,w),e),*c2=lo>=0?X.raw(E_ULE,1,0,e,X.K((u64)hi,w)):X.raw(E_SLE,1,0,e,X.K((u64)hi,w));
    if(!(lo==0)) { st->pc=new PCN{st->pc,c1,st->pc?st->pc->depth+1:1,false}; } if(!(lo>=0&&(u64)hi==mask(w))) st->pc=new PCN{st->pc,c2,st->pc?st->pc->depth+1:1,false};
    ret(VX(lo>=0?X.zext(e,64):X.sext(e,64))); return false; }
  case X_VF_ASSUME:{ Expr*c=EX(A[0],x.ws[0]); if(c->w>1) c=X.not1(X.bin(E_EQ,c,X.K(0,c->w))); c=simp(c); if(c->op==E_CONST){ if(!c->c) endPath(true); return false; }
    if(c->fp){ if(!decide(c)) endPath(true); return false; }
    if(X.eval(c,st->model)){ addPC(c); return false; } std::vector<u64> m; if(query(c,m)==1){ addPC(c); st->model=m; return false; } endPath(true); }
  case X_VF_ASSERT:{ bool ok; std::string id=cstr(CV(A[1]),ok); Expr*c=EX(A[0],x.ws[0]); if(c->w>1) c=X.not1(X.bin(E_EQ,c,X.K(0,c->w))); c=simpPC(c); assertCnt[id]++; assertsChecked++;
    if(c->op==E_CONST){ if(!c->c) violEnd("assert",id); return false; }
    if(c->undef){ violEnd("uninit","assertion on uninitialised value: "+id); }
    if(c->fp){ if(!decide(c)) violEnd("assert",id); return false; }
    assertQueries++; markTo(st->pc); if(c->pcm==1) return false; std::vector<u64> m; Expr*nc=X.not1(c);
    if(!X.eval(c,st->model)){ report("assert",id,st->model); if(query(c,m)==1){ addPC(c); st->model=m; return false; } endPath(false); }
    if(query(nc,m)==1){ report("assert",id,m); addPC(c); } else addPC(c,true); return false; }
  case X_VF_REACH:{ bool ok; std::string id=cstr(CV(A[0]),ok); reachCnt[id]++; auto&r=reach[id]; if(r.size()<2) r.push_back(inputsOf(st,st->model)); return false; }
  case X_VF_CONC: retc(CV(A[0])); return false;
  case X_VF_ISSYM: retc(A[0].e!=nullptr); return false;
  case X_VF_LIVE: retc(st->heapLive); return false;
  case X_VF_OUT: st->outs.push_back({(uint8_t)x.ws[0],A[0]}); return false;
  case X_VF_IDENT:{ u64 sz=CV(A[0]); Obj*o=newObj(OK_IDENT,sz,true); o->tag=(u32)CV(A[1]); st->objs.push_back(o); retc(mkaddr(st->objs.size()-1,0)); return false; }
  case X_VF_THREADS: st->ompThreads=(int)CV(A[0]); return false;
  case X_VF_DESC: st->descTid=CV(A[0]); return false;
  case X_VF_FAILAT: { long k=(long)CV(A[0]); st->failAt=k<0?-1:st->allocNo+k; return false; }
  case X_VF_VALID:{ // vf_valid(p,n): is [p,p+n) inside a live object
    u64 p=CV(A[0]),n=CV(A[1]); u32 id=(u32)(p>>OFFB); retc(p>=4096&&id<st->objs.size()&&!st->objs[id]->dead&&(p&OFFM)+n<=st->objs[id]->size); return false; }
  case X_MALLOC:{ u64 n=CV(A[0]); retc(heapAlloc(n,false)); return false; }
  case X_CALLOC:{ u64 a=CV(A[0]),b=CV(A[1]); unsigned __int128 t=(unsigned __int128)a*b; if(t>(1ull<<33)){ retc(0); return false; } retc(heapAlloc((u64)t,true)); return false; }
  case X_REALLOC:{ u64 p=CV(A[0]),n=CV(A[1]); if(!p){ retc(heapAlloc(n,false)); return false; } u32 id=(u32)(p>>OFFB); if(p>=4096&&id<st->objs.size()&&st->objs[id]->how) violEnd("mismatched-free","realloc of a block from new"); if(p<4096||id>=st->objs.size()||st->objs[id]->kind!=OK_HEAP||(p&OFFM)) violEnd("invalid-free","realloc of a pointer that is not a heap block"); if(st->objs[id]->dead) violEnd("double-free","realloc of a freed block");
    if(n==0){ heapFree(p); retc(0); return false; } u64 q=heapAlloc(n,false); if(q){ u64 k=std::min(n,st->objs[id]->size); memcpyImpl(q,p,k); heapFree(p); } retc(q); return false; }
  case X_FREE: heapFree(CV(A[0])); return false;
  case X_NEW: case X_NEWA:{ u64 n=CV(A[0]),p=heapAlloc(n,false); if(p>=4096) st->objs[(u32)(p>>OFFB)]->how=x.ext==X_NEW?1:2; retc(p); return false; }
  case X_DEL: heapFree(CV(A[0]),1); return false;
  case X_VASTART:{ u64 a=CV(A[0]); u32 id=st->fr.back().va; st64(a,32,48); st64(a+4,32,176); st64(a+8,64,id?mkaddr(id,0):0); st64(a+16,64,0); return false; }
  case X_VACOPY: memcpyImpl(CV(A[0]),CV(A[1]),24); return false;
  case X_DELA: heapFree(CV(A[0]),2); return false;
  case X_MEMCPY:{ u64 n=CV(A[2]); u64 d=n?addrOf(A[0],1,true):CV(A[0]),s=n?addrOf(A[1],1,false):CV(A[1]); memcpyImpl(d,s,n); if(x.n) retc(d); return false; }
  case X_MEMSET:{ u64 n=CV(A[2]); u64 d=n?addrOf(A[0],1,true):CV(A[0]); if(n){ u32 id;u64 off; access(d,n,true,id,off); if(regionActive()) logAccess(id,off,n,true,false); Obj*o=st->w(id); Expr*e=A[1].e?X.extract(EX(A[1],x.ws[1]),0,8):nullptr; if(e) for(u64 i=0;i<n;i++) stBytes(o,off+i,VX(e),8); else { memset(o->data+off,(int)A[1].c&255,n); memset(o->flag+off,0,n);} } if(x.n) retc(d); return false; }
  case X_NOP: case X_EXPECT: if(x.ext==X_EXPECT) ret(A[0]); return false;
  case X_NOP0: retc(0); return false;
  case X_FPRINTF:{ // the stream argument must be valid
    retc(0); return false; }
  case X_ABORT: violEnd("abort","abort called");
  case X_EXIT: violEnd("exit","process exit called");
  case X_ASSERTFAIL:{ bool ok; std::string s=cstr(CV(A[0]),ok); violEnd("library-assert",s); }
  case X_UBTRAP: violEnd("undefined-behaviour","arithmetic undefined behaviour trap "+std::to_string(A.empty()?0:A[0].c));
  case X_STACKSAVE: retc(st->fr.back().allocas.size()); return false;
  case X_STACKRESTORE:{ u64 n=CV(A[0]); auto&al=st->fr.back().allocas; while(al.size()>n){ killStack(al.back()); al.pop_back(); } return false; }
  case X_FABS: ret(VX(X.fabs_(EX(A[0],x.w)))); return false;
  case X_SQRT: ret(VX(X.fsqrt(EX(A[0],x.w)))); return false;
  case X_FLOOR: ret(VX(X.ffloor(EX(A[0],x.w),false))); return false;
  case X_CEIL: ret(VX(X.ffloor(EX(A[0],x.w),true))); return false;
  case X_MATH1:{ u64 c=CV(A[0]); if(x.w==64) retc(ofD(x.m1(asD(c)))); else retc(ofF((float)x.m1(asF(c)))); return false; }
  case X_MATH2:{ u64 c=CV(A[0]),d=CV(A[1]); if(x.w==64) retc(ofD(x.m2(asD(c),asD(d)))); else retc(ofF((float)x.m2(asF(c),asF(d)))); return false; }
  case X_FMULADD: ret(VX(X.fbin(E_FADD,X.fbin(E_FMUL,EX(A[0],x.w),EX(A[1],x.w)),EX(A[2],x.w)))); return false;
  case X_ABSI:{ Expr*e=EX(A[0],x.w); ret(VX(X.ite(X.bin(E_SLT,e,X.K(0,x.w)),X.bin(E_SUB,X.K(0,x.w),e),e))); return false; }
  case X_MINMAX:{ Expr*a=EX(A[0],x.w),*b=EX(A[1],x.w); bool mx=x.name.find("max")!=std::string::npos; bool sg=x.name.find("llvm.s")==0; Expr*c=X.bin(sg?E_SLT:E_ULT,a,b); ret(VX(mx?X.ite(c,b,a):X.ite(c,a,b))); return false; }
  case X_ISFPCLASS: ret(fclassChk(A[0],x.ws[0],CV(A[1]))); return false;
  case X_OBJSIZE: retc(~0ull); return false; case X_ISCONST: retc(0); return false;
  case X_OVF:{ int w=x.ws[0]; Expr*a=EX(A[0],w),*b=EX(A[1],w); char k=x.name[5]; std::string o=x.name.substr(6,3); Op op=o=="add"?E_ADD:o=="sub"?E_SUB:E_MUL; Expr*r=X.bin(op,a,b),*ov;
    if(w<=32||op!=E_MUL){ if(w<=32){ Expr*A2=k=='s'?X.sext(a,64):X.zext(a,64),*B2=k=='s'?X.sext(b,64):X.zext(b,64); Expr*R=X.bin(op,A2,B2),*R2=k=='s'?X.sext(r,64):X.zext(r,64); ov=X.not1(X.bin(E_EQ,R,R2)); }
      else { Expr*z=X.K(0,w); if(k=='u') ov=op==E_ADD?X.bin(E_ULT,r,a):X.bin(E_ULT,a,b); else { bool safe=false; __int128 lo=op==E_ADD?(__int128)a->slo+b->slo:(__int128)a->slo-b->shi,hi=op==E_ADD?(__int128)a->shi+b->shi:(__int128)a->shi-b->slo; safe=lo>=INT64_MIN&&hi<=INT64_MAX; if(safe) ov=X.B(false); else { Expr*x1=X.bin(E_XOR,a,r),*y1=op==E_ADD?X.bin(E_XOR,b,r):X.bin(E_XOR,a,b); ov=X.bin(E_SLT,X.bin(E_AND,x1,y1),z); } } } }
    else { Expr*z=X.K(0,w); bool safe=false; if(k=='u') safe=(unsigned __int128)a->uhi*b->uhi<=~0ull; else { __int128 m=0; for(auto p:{(__int128)a->slo*b->slo,(__int128)a->slo*b->shi,(__int128)a->shi*b->slo,(__int128)a->shi*b->shi}){ __int128 q=p<0?-p:p; if(q>m) m=q; } safe=m<=INT64_MAX; }
      if(safe) ov=X.B(false); else { Expr*q=X.bin(k=='u'?E_UDIV:E_SDIV,r,a); ov=X.bin(E_AND,X.not1(X.bin(E_EQ,a,z)),X.not1(X.bin(E_EQ,q,b))); if(k=='s') ov=X.bin(E_OR,ov,X.bin(E_AND,X.bin(E_EQ,a,X.K(~0ull,w)),X.bin(E_EQ,b,X.K(1ull<<63,w)))); } }
    SETR(x.dst,VX(r)); SETR(x.dst+1,VX(ov)); return false; }
  case X_SPRINTF: case X_SNPRINTF:{ size_t fi=x.ext==X_SPRINTF?1:2; u64 d=CV(A[0]); u64 lim=x.ext==X_SNPRINTF?CV(A[1]):~0ull; bool ok; std::string f=cstr(CV(A[fi]),ok); if(!ok) violEnd("bad-format","format string unreadable");
    std::vector<Val> va(A.begin()+fi+1,A.end()); std::vector<int> vw(x.ws.begin()+fi+1,x.ws.end()); std::string o=vfmt(f,va,vw); u64 n=o.size(); std::string w=o; if(lim!=~0ull){ if(lim==0){ retc(n); return false; } if(w.size()>lim-1) w.resize(lim-1); }
    u32 id;u64 off; access(d,w.size()+1,true,id,off); Obj*ob=st->w(id); memcpy(ob->data+off,w.c_str(),w.size()+1); memset(ob->flag+off,0,w.size()+1); retc(n); return false; }
  // ---- OpenMP runtime
  case X_FORK:{ u64 fp=CV(A[2]); Fn*t=fnByObj[(u32)(fp>>OFFB)]; std::vector<Val> rest(A.begin()+3,A.end());
    auto mk=[&](int tid){ u32 id=allocObj(OK_STACK,4,true); u32 idb=allocObj(OK_STACK,4,true); int v=tid; memcpy(st->objs[id]->data,&v,4); std::vector<Val> a; a.push_back({mkaddr(id,0),nullptr}); a.push_back({mkaddr(idb,0),nullptr}); for(auto&r:rest) a.push_back(r); return a; };
    if(regionActive()){ auto a=mk(st->tid); st->fr.back().pc++; pushFrame(t,a,-1,0); return true; }
    st->fr.back().pc++; auto o=std::make_shared<Omp>(); o->T=st->ompThreads; o->th.resize(o->T); std::vector<std::vector<Val>> as; for(int i=0;i<o->T;i++) as.push_back(mk(i)); st->mainObjs=(u32)st->objs.size(); o->mfr=std::move(st->fr); o->mregs=std::move(st->regs); st->omp=o;
    for(int i=0;i<o->T;i++){ st->fr.clear(); st->regs.clear(); pushFrame(t,as[i],-1,0); o->th[i].fr=std::move(st->fr); o->th[i].regs=std::move(st->regs); }
    st->fr.clear(); st->regs.clear(); int f=st->descTid?o->T-1:0; o->cur=f; st->tid=f; std::swap(o->th[f].fr,st->fr); std::swap(o->th[f].regs,st->regs); st->locks=0; return true; }
  case X_SINIT:{ int w=x.name.find("_8")!=std::string::npos?64:32; bool us=x.name.back()=='u'; int sched=(int)CV(A[2]); u64 pl=CV(A[3]),plo=CV(A[4]),pup=CV(A[5]),pst=CV(A[6]); int64_t inc=sx(CV(A[7]),w),ch=sx(CV(A[8]),w); auto cvt=[&](u64 v){ return us?(int64_t)v:sx(v,w); }; int64_t lo=cvt(ld64(plo,w)),up=cvt(ld64(pup,w)); int T=regionActive()?st->omp->T:1,tid=st->tid; if(!regionActive()) tid=0;
    int64_t trip=inc>0?(up>=lo?(up-lo)/inc+1:0):(lo>=up?(lo-up)/(-inc)+1:0); 
    if(trip==0){ st64(pl,32,0); st64(pst,w,(u64)inc); return false; }
    if(sched==33){ if(ch<1) ch=1; int64_t span=ch*inc; st64(plo,w,(u64)(lo+span*tid)); st64(pup,w,(u64)(lo+span*tid+span-inc)); st64(pst,w,(u64)(span*T)); st64(pl,32,((trip-1)/ch)%T==tid); return false; }
    int64_t q=(trip+T-1)/T; int64_t b=q*tid,e=std::min(trip,b+q)-1; if(b>=trip){ st64(plo,w,(u64)(up+inc)); st64(pup,w,(u64)up); st64(pl,32,0); } else { st64(plo,w,(u64)(lo+b*inc)); st64(pup,w,(u64)(lo+e*inc)); st64(pl,32,e==trip-1); } st64(pst,w,(u64)(q*inc)); return false; }
  case X_BARRIER: if(!regionActive()||st->omp->T<2) return false; st->fr.back().pc++; st->omp->th[st->omp->cur].status=1; threadSwitch(); return true;
  case X_CRIT:{ u64 l=CV(A[2]); st->locks|=1u<<((l>>OFFB)%24); return false; }
  case X_REDUCE: st->locks|=1u<<30; retc(1); return false;
  case X_ENDCRIT: { if(x.name.find("reduce")!=std::string::npos) st->locks&=~(1u<<30); else { u64 l=CV(A[2]); st->locks&=~(1u<<((l>>OFFB)%24)); } return false; }
  case X_GTID: case X_TID: retc(regionActive()?st->tid:0); return false;
  case X_NTHREADS: retc(regionActive()?st->omp->T:(x.name.find("max")!=std::string::npos?st->ompThreads:1)); return false;
  case X_SINGLE:{ if(!regionActive()){ retc(1); return false; } if(x.name.find("master")!=std::string::npos){ retc(st->tid==0); return false; } auto k=std::make_pair(st->omp->phase,(u64)(uintptr_t)x.I); auto it=st->omp->singles.find(k); if(it==st->omp->singles.end()){ st->omp->singles[k]=st->tid; retc(1); } else retc(0); return false; }
  case X_PUSHNT: return false;
  default: { setIncomplete("unmodelled external "+x.name); notes.insert("unmodelled external "+x.name); endPath(true); }
  }
}
static void popFrame(){ Frame f=std::move(st->fr.back()); st->fr.pop_back(); for(u32 id:f.allocas) killStack(id); st->regs.resize(f.base); }
static void step(){
  Frame&f=st->fr.back(); Inst&x=f.fn->code[f.pc];
  switch(x.op){
  case I_BIN:{ Val a=G(x.a),b=G(x.b); int w=x.w; if(x.sub>=E_UDIV&&x.sub<=E_SREM){ if(b.e){ if(decide(X.bin(E_EQ,b.e,X.K(0,w)))) violEnd("undefined-behaviour","division by zero"); b=G(x.b); } else if(b.c==0) violEnd("undefined-behaviour","division by zero"); }
      if(!a.e&&!b.e){ u64 p=a.c,q=b.c,r,mk=mask(w); switch(x.sub){ case E_ADD:r=p+q;break;case E_SUB:r=p-q;break;case E_MUL:r=p*q;break;case E_AND:r=p&q;break;case E_OR:r=p|q;break;case E_XOR:r=p^q;break; case E_UDIV:r=p/q;break;case E_UREM:r=p%q;break;case E_SHL:r=q>=(u64)w?0:p<<q;break;case E_LSHR:r=q>=(u64)w?0:p>>q;break;
          case E_SDIV:{ int64_t s=sx(p,w),t=sx(q,w); r=t==-1?0-(u64)s:(u64)(s/t);break;} case E_SREM:{ int64_t s=sx(p,w),t=sx(q,w); r=t==-1?0:(u64)(s%t);break;} default: r=(u64)(sx(p,w)>>(q>=(u64)w?w-1:q)); } for(int k=0;k<1;k++) SETR(x.dst,{r&mk,nullptr}); }
      else SETR(x.dst,VX(X.bin((Op)x.sub,EX(a,w),EX(b,w))));
      for(int k=1;k<x.n;k++){ Val a2=G(x.a>=0?x.a+k:x.a-k),b2=G(x.b>=0?x.b+k:x.b-k); SETR(x.dst+k,VX(X.bin((Op)x.sub,EX(a2,w),EX(b2,w)))); }
      f.pc++; return; }
  case I_FBIN:{ for(int k=0;k<x.n;k++){ Val a=G(x.a>=0?x.a+k:x.a-k),b=G(x.b>=0?x.b+k:x.b-k); if(!a.e&&!b.e) SETR(x.dst+k,{Ctx::fop((Op)x.sub,x.w,a.c,b.c),nullptr}); else SETR(x.dst+k,VX(X.fbin((Op)x.sub,EX(a,x.w),EX(b,x.w)))); } f.pc++; return; }
  case I_FNEG: SETR(x.dst,VX(X.fneg(EX(G(x.a),x.w)))); f.pc++; return;
  case I_ICMP:{ Val a=G(x.a),b=G(x.b); int w=x.w2; bool r; Expr*A,*B;
      if(!a.e&&!b.e){ u64 p=a.c,q=b.c; int64_t s=sx(p,w),t=sx(q,w); switch(x.sub){ case CmpInst::ICMP_EQ:r=p==q;break;case CmpInst::ICMP_NE:r=p!=q;break;case CmpInst::ICMP_ULT:r=p<q;break;case CmpInst::ICMP_ULE:r=p<=q;break;case CmpInst::ICMP_UGT:r=p>q;break;case CmpInst::ICMP_UGE:r=p>=q;break;case CmpInst::ICMP_SLT:r=s<t;break;case CmpInst::ICMP_SLE:r=s<=t;break;case CmpInst::ICMP_SGT:r=s>t;break;default:r=s>=t;} SETR(x.dst,{r,nullptr}); f.pc++; return; }
      A=EX(a,w);B=EX(b,w); Expr*e; switch(x.sub){ case CmpInst::ICMP_EQ:e=X.bin(E_EQ,A,B);break;case CmpInst::ICMP_NE:e=X.not1(X.bin(E_EQ,A,B));break;case CmpInst::ICMP_ULT:e=X.bin(E_ULT,A,B);break;case CmpInst::ICMP_ULE:e=X.bin(E_ULE,A,B);break;case CmpInst::ICMP_UGT:e=X.bin(E_ULT,B,A);break;case CmpInst::ICMP_UGE:e=X.bin(E_ULE,B,A);break;case CmpInst::ICMP_SLT:e=X.bin(E_SLT,A,B);break;case CmpInst::ICMP_SLE:e=X.bin(E_SLE,A,B);break;case CmpInst::ICMP_SGT:e=X.bin(E_SLT,B,A);break;default:e=X.bin(E_SLE,B,A);} SETR(x.dst,VX(e)); f.pc++; return; }
  case I_FCMP:{ Expr*A=EX(G(x.a),x.w2),*B=EX(G(x.b),x.w2); Expr*e; auto U=[&]{ return X.fcmp(E_FUNO,A,B); };
      switch(x.sub){ case CmpInst::FCMP_OEQ:e=X.fcmp(E_FEQ,A,B);break;case CmpInst::FCMP_OLT:e=X.fcmp(E_FLT,A,B);break;case CmpInst::FCMP_OLE:e=X.fcmp(E_FLE,A,B);break;case CmpInst::FCMP_OGT:e=X.fcmp(E_FLT,B,A);break;case CmpInst::FCMP_OGE:e=X.fcmp(E_FLE,B,A);break;
        case CmpInst::FCMP_UNE:e=X.not1(X.fcmp(E_FEQ,A,B));break;case CmpInst::FCMP_ONE:e=X.bin(E_AND,X.not1(U()),X.not1(X.fcmp(E_FEQ,A,B)));break;case CmpInst::FCMP_UNO:e=U();break;case CmpInst::FCMP_ORD:e=X.not1(U());break;
        case CmpInst::FCMP_ULT:e=X.not1(X.fcmp(E_FLE,B,A));break;case CmpInst::FCMP_ULE:e=X.not1(X.fcmp(E_FLT,B,A));break;case CmpInst::FCMP_UGT:e=X.not1(X.fcmp(E_FLE,A,B));break;case CmpInst::FCMP_UGE:e=X.not1(X.fcmp(E_FLT,A,B));break;case CmpInst::FCMP_UEQ:e=X.bin(E_OR,U(),X.fcmp(E_FEQ,A,B));break;case CmpInst::FCMP_TRUE:e=X.B(true);break;default:e=X.B(false);} SETR(x.dst,VX(e)); f.pc++; return; }
  case I_ZEXT:{ Val a=G(x.a); SETR(x.dst,a.e?VX(X.zext(a.e,x.w)):a); f.pc++; return; }
  case I_SEXT:{ Val a=G(x.a); SETR(x.dst,a.e?VX(X.sext(a.e,x.w)):Val{(u64)sx(a.c,x.w2)&mask(x.w),nullptr}); f.pc++; return; }
  case I_TRUNC:{ Val a=G(x.a); SETR(x.dst,a.e?VX(X.extract(a.e,0,x.w)):Val{a.c&mask(x.w),nullptr}); f.pc++; return; }
  case I_FPEXT: SETR(x.dst,VX(X.fpext(EX(G(x.a),32)))); f.pc++; return;
  case I_FPTRUNC: SETR(x.dst,VX(X.fptrunc(EX(G(x.a),64)))); f.pc++; return;
  case I_SI2F: SETR(x.dst,VX(X.si2f(EX(G(x.a),x.w2),x.w))); f.pc++; return;
  case I_UI2F: SETR(x.dst,VX(X.ui2f(EX(G(x.a),x.w2),x.w))); f.pc++; return;
  case I_F2SI: case I_F2UI: SETR(x.dst,VX(X.f2i(EX(G(x.a),x.w2),x.w,x.op==I_F2SI))); f.pc++; return;
  case I_COPY: for(int k=0;k<x.n;k++) SETR(x.dst+k,G(x.a>=0?x.a+k:x.a-k)); f.pc++; return;
  case I_ALLOCA:{ u64 n=CV(G(x.a))&mask(x.w2); if(n*x.imm>(64u<<20)) violEnd("stack-overflow","stack array of "+std::to_string(n)+" elements"); u32 id=allocObj(OK_STACK,n*x.imm,false); st->fr.back().allocas.push_back(id); SETR(x.dst,{mkaddr(id,0),nullptr}); st->fr.back().pc++; return; }
  case I_LOAD:{ if(x.ws.empty()){ f.pc++; return; } u64 tot=x.scl.back()+(x.ws.back()+7)/8; Val a=G(x.a);
      if(a.e){ // identity objects answer symbolically
        Expr*e=simp(a.e); u64 v=X.eval(e,st->model); u32 id=(u32)(v>>OFFB); if(id&&id<st->objs.size()&&st->objs[id]->kind==OK_IDENT){ Obj*o=st->objs[id]; u64 es=o->tag; Expr*lo=X.K(mkaddr(id,0),64),*hi=X.K(mkaddr(id,o->size-tot),64); if(!decide(X.bin(E_AND,X.bin(E_ULE,lo,e),X.bin(E_ULE,e,hi)))) violEnd("out-of-bounds","read outside the virtual array"); e=simp(e); Expr*off=X.bin(E_SUB,e,lo); Expr*ix=X.bin(E_UDIV,off,X.K(es,64)); { unsigned kb=1; while(kb<63&&((o->size/es)>>kb)) kb++; ix=X.zext(X.extract(ix,0,kb),64); /* in bounds, as just decided */ } Expr*r=ix; if(x.w==64&&x.I->getType()->isDoubleTy()) r=X.si2f(ix,64); else if(x.I->getType()->isFloatTy()) r=X.si2f(ix,32); else if(x.w<64) r=X.extract(ix,0,x.w); SETR(x.dst,VX(r)); st->fr.back().pc++; return; } }
      u64 p=addrOf(a,tot,false); u32 id;u64 off; Obj*o=access(p,tot,false,id,off);
      if(o->kind==OK_IDENT){ u64 ix=off/o->tag; u64 r=ix; if(x.I->getType()->isDoubleTy()) r=ofD((double)ix); else if(x.I->getType()->isFloatTy()) r=ofF((float)ix); SETR(x.dst,{r&mask(x.w),nullptr}); st->fr.back().pc++; return; }
      if(regionActive()) logAccess(id,off,tot,false,x.flag);
      for(size_t k=0;k<x.ws.size();k++) SETR(x.dst+(int)k,ldBytes(o,off+x.scl[k],x.ws[k])); st->fr.back().pc++; return; }
  case I_STORE:{ if(x.ws.empty()){ f.pc++; return; } u64 tot=x.scl.back()+(x.ws.back()+7)/8; u64 p=addrOf(G(x.a),tot,true); u32 id;u64 off; access(p,tot,true,id,off); if(st->objs[id]->kind==OK_IDENT) violEnd("write-readonly","write to the virtual array"); if(regionActive()) logAccess(id,off,tot,true,x.flag); Obj*o=st->w(id); for(size_t k=0;k<x.ws.size();k++) stBytes(o,off+x.scl[k],G(x.b>=0?x.b+(int)k:x.b-(int)k),x.ws[k]); st->fr.back().pc++; return; }
  case I_ATOMICRMW:{ u64 n=(x.w+7)/8; u64 p=addrOf(G(x.a),n,true); u32 id;u64 off; access(p,n,true,id,off); if(regionActive()) logAccess(id,off,n,true,true); Obj*o=st->w(id); Val old=ldBytes(o,off,x.w); Expr*a=EX(old,x.w),*b=EX(G(x.b),x.w),*r; switch(x.sub){ case AtomicRMWInst::Add:r=X.bin(E_ADD,a,b);break;case AtomicRMWInst::Sub:r=X.bin(E_SUB,a,b);break;case AtomicRMWInst::FAdd:r=X.fbin(E_FADD,a,b);break;case AtomicRMWInst::Xchg:r=b;break;case AtomicRMWInst::And:r=X.bin(E_AND,a,b);break;case AtomicRMWInst::Or:r=X.bin(E_OR,a,b);break;default: setIncomplete("atomicrmw"); endPath(true);} stBytes(o,off,VX(r),x.w); SETR(x.dst,old); st->fr.back().pc++; return; }
  case I_CMPXCHG:{ int w=x.I->getOperand(1)->getType()->isPointerTy()?64:(int)x.I->getOperand(1)->getType()->getPrimitiveSizeInBits(); u64 n=(w+7)/8; u64 p=addrOf(G(x.a),n,true); u32 id;u64 off; access(p,n,true,id,off); if(regionActive()) logAccess(id,off,n,true,true); Val old=ldBytes(st->objs[id],off,w); bool eq=decide(X.bin(E_EQ,EX(old,w),EX(G(x.b),w))); Obj*o=st->w(id); if(eq) stBytes(o,off,G(x.d),w); SETR(x.dst,old); SETR(x.dst+1,{eq,nullptr}); st->fr.back().pc++; return; }
  case I_FENCE: f.pc++; return;
  case I_GEP:{ Val a=G(x.a); bool sym=a.e!=nullptr; u64 c=a.c+x.imm; Expr*se=sym?X.bin(E_ADD,a.e,X.K(x.imm,64)):nullptr;
      for(size_t k=0;k<x.ops.size();k++){ Val i=G(x.ops[k]); if(i.e){ Expr*t=X.bin(E_MUL,X.sext(i.e,64),X.K(x.scl[k],64)); se=se?X.bin(E_ADD,se,t):X.bin(E_ADD,t,X.K(c,64)); sym=true; } else { u64 d=(u64)sx(i.c,x.ws[k])*x.scl[k]; if(se) se=X.bin(E_ADD,se,X.K(d,64)); else c+=d; } }
      SETR(x.dst,se?VX(se):Val{c,nullptr}); f.pc++; return; }
  case I_BR: takeEdge(x.e1); return;
  case I_CBR:{ Val c=G(x.a); bool t=c.e?decide(c.e):c.c&1; takeEdge(t?x.e1:x.e2); return; }
  case I_SWITCH:{ Val v=G(x.a); if(v.e){ for(auto&c:x.cases) if(decide(X.bin(E_EQ,simp(v.e),X.K(c.first,x.w2)))){ takeEdge(c.second); return; } takeEdge(x.e1); return; } u64 c=v.c; for(auto&k:x.cases) if(k.first==c){ takeEdge(k.second); return; } takeEdge(x.e1); return; }
  case I_SELECT:{ Val c=G(x.a); if(c.e&&c.e->undef){ violEnd("uninit","select on uninitialised value"); } for(size_t k=0;k<x.ws.size();k++){ Val t=G(x.b>=0?x.b+(int)k:x.b-(int)k),e=G(x.d>=0?x.d+(int)k:x.d-(int)k); SETR(x.dst+(int)k,c.e?VX(X.ite(c.e,EX(t,x.ws[k]),EX(e,x.ws[k]))):(c.c&1)?t:e); } f.pc++; return; }
  case I_INSERTV:{ for(int k=0;k<x.n;k++){ int o=(int)x.imm; Val v=(k>=o&&k<o+x.w2)?G(x.b>=0?x.b+k-o:x.b-(k-o)):G(x.a>=0?x.a+k:x.a-k); SETR(x.dst+k,v); } f.pc++; return; }
  case I_RET:{ Val rv[16]; int n=std::min(x.n,16); for(int k=0;k<n;k++) rv[k]=G(x.a>=0?x.a+k:x.a-k); int dst=f.retDst; int rn=f.retN; popFrame();
      if(st->fr.empty()){ if(regionActive()){ st->omp->th[st->omp->cur].status=2; threadSwitch(); return; } finishPath(); throw PathEnd(); }
      Frame&p=st->fr.back(); for(int k=0;k<n&&k<rn;k++) if(dst>=0) st->regs[p.base+dst+k]=rv[k]; if(p.pc==0) return; Inst&ci=p.fn->code[p.pc-1]; if(ci.e1&&ci.op==I_CALL){ takeEdge(ci.e1); } return; }
  case I_CALL: doCall(x); return;
  case I_UNREACH: violEnd("unreachable","unreachable code reached");
  default: setIncomplete("unsupported instruction "+x.name); endPath(true);
  }
}
static u64 rngState=88172645463325252ull; static u64 rnd(){ rngState^=rngState<<13; rngState^=rngState>>7; rngState^=rngState<<17; return rngState; }
static void finishPath(){ u64 i=pathsDone; Sample s; bool keep=(int)samples.size()<opt.samples; size_t slot=samples.size(); if(!keep&&opt.samples>0){ u64 r=rnd()%(i+1); if(r<(u64)opt.samples){ keep=true; slot=(size_t)r; } } if(keep){ s.in=inputsOf(st,st->model); for(auto&o:st->outs) s.out.push_back(o.second.e?X.eval(o.second.e,st->model):o.second.c); if(slot<samples.size()) samples[slot]=s; else samples.push_back(s); } }
static std::string jesc(const std::string&s){ std::string o="\""; for(char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if((unsigned char)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }
static std::string jv(const std::vector<u64>&v){ std::string s="["; for(size_t i=0;i<v.size();i++){ if(i) s+=","; s+="\""+std::to_string(v[i])+"\""; } return s+"]"; }
static void writeResult(){
  int n=__sync_fetch_and_add(&sh->fileSeq,1); std::ofstream f(opt.out+"/r"+std::to_string(n)+".json"); f<<"{\"paths\":"<<pathsDone<<",\"killed\":"<<pathsKilled<<",\"forks\":"<<forksLocal<<",\"insts\":"<<instTotal<<",\"queries\":"<<nQ<<",\"cached\":"<<nCache<<",\"sat\":"<<nSat<<",\"unsat\":"<<nUnsat<<",\"unknown\":"<<nUnk<<",\"solver_s\":"<<tSolver<<",\"branches\":"<<branches<<",\"asserts\":"<<assertsChecked<<",\"assert_queries\":"<<assertQueries<<",\"concretizations\":"<<concretized<<",\"incomplete\":"<<(incomplete?"true":"false");
  f<<",\"reasons\":{"; bool c=false; for(auto&r:incReasons){ f<<(c?",":"")<<jesc(r.first)<<":"<<r.second; c=true; } f<<"},\"notes\":["; c=false; for(auto&r:notes){ f<<(c?",":"")<<jesc(r); c=true; }
  f<<"],\"assertions\":{"; c=false; for(auto&r:assertCnt){ f<<(c?",":"")<<jesc(r.first)<<":"<<r.second; c=true; }
  f<<"},\"reach\":{"; c=false; for(auto&r:reach){ f<<(c?",":"")<<jesc(r.first)<<":{\"n\":"<<reachCnt[r.first]<<",\"in\":["; bool d=false; for(auto&v:r.second){ f<<(d?",":"")<<jv(v); d=true; } f<<"]}"; c=true; }
  f<<"},\"violations\":["; c=false; for(auto&v:viols){ f<<(c?",":"")<<"{\"kind\":"<<jesc(v.kind)<<",\"id\":"<<jesc(v.id)<<",\"loc\":"<<jesc(v.loc)<<",\"stack\":"<<jesc(v.stack)<<",\"in\":"<<jv(v.in)<<"}"; c=true; }
  f<<"],\"samples\":["; c=false; for(auto&s:samples){ f<<(c?",":"")<<"{\"in\":"<<jv(s.in)<<",\"out\":"<<jv(s.out)<<"}"; c=true; }
  f<<"],\"functions\":{"; c=false; for(auto*fn:fns) if(fn->execd){ f<<(c?",":"")<<jesc(fn->name)<<":["<<jesc(fn->file)<<","<<fn->execd<<"]"; c=true; } f<<"}}\n"; }
static bool isChild=false;
static void forkWork(size_t keep){
  while(work.size()>keep&&sh->idle>0&&!sh->stop){ int v=sh->idle; if(v<=0) return; if(!__sync_bool_compare_and_swap(&sh->idle,v,v-1)) continue;
    State*s=work.front(); fflush(stdout); fflush(stderr); pid_t p=fork();
    if(p<0){ __sync_fetch_and_add(&sh->idle,1); return; }
    if(p==0){ isChild=true; work.clear(); work.push_back(s); pathsDone=pathsKilled=instTotal=branches=forksLocal=assertsChecked=assertQueries=concretized=0; nQ=nSat=nUnsat=nUnk=nCache=0; tSolver=0; viols.clear(); violCnt.clear(); reach.clear(); reachCnt.clear(); assertCnt.clear(); samples.clear(); incomplete=false; incReasons.clear(); notes.clear(); for(auto*f:fns) f->execd=0; rngState^=(u64)getpid()*0x9e3779b97f4a7c15ull; throw 42; }
    work.erase(work.begin()); delete s; }
}
static void runAll(){
  for(;;){
    try{
      while(!work.empty()){
        if(sh->stop||now()-tStart>opt.timeLimit){ if(now()-tStart>opt.timeLimit) setIncomplete("time-limit"); sh->stop=1; break; }
        if(sh->viol>=64){ setIncomplete("stopped after many violations"); sh->stop=1; break; }
        forkWork(1);
        st=work.back(); work.pop_back(); markTo(st->pc); u64 start=st->icount;
        try{ for(;;){ st->icount++; instTotal++; if((st->icount&0x3ff)==0){ if(!work.empty()&&sh->idle>0){ forkWork(0); } if(st->icount>opt.maxInst){ report("hang","more than "+std::to_string(opt.maxInst)+" instructions executed on one path",st->model); endPath(false);} if((st->icount&0xffff)==0&&(now()-tStart>opt.timeLimit||sh->stop)){ setIncomplete(sh->stop?"stopped":"time-limit"); sh->stop=1; throw PathEnd(); } } step(); } }
        catch(PathEnd&){ } (void)start; pathsDone++; if(opt.verbose&&(pathsDone%1000)==0) fprintf(stderr,"[%d] paths %llu work %zu q %llu t %.1f\n",getpid(),(unsigned long long)pathsDone,work.size(),(unsigned long long)nQ,now()-tStart);
        delete st; st=nullptr; }
      return;
    } catch(int){ continue; }
  }
}
int main(int argc,char**argv){
  std::string in; for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="-query-ms") opt.queryMs=atoi(nx().c_str()); else if(a=="-retry-ms") opt.retryMs=atoi(nx().c_str()); else if(a=="-j") opt.jobs=atoi(nx().c_str()); else if(a=="-t") opt.timeLimit=atof(nx().c_str()); else if(a=="-o") opt.out=nx(); else if(a=="-max-inst") opt.maxInst=strtoull(nx().c_str(),0,10); else if(a=="-v") opt.verbose=1; else if(a=="-entry") opt.entry=nx(); else if(a=="-no-uninit") opt.checkUninit=false; else if(a=="-samples") opt.samples=atoi(nx().c_str()); else if(a=="-enum") opt.enumLimit=strtoull(nx().c_str(),0,10); else in=a; }
  tStart=now(); sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)sh,0,sizeof *sh); sh->idle=opt.jobs-1;
  SMDiagnostic err; M=parseIRFile(in,err,LC); if(!M){ err.print("vfse",errs()); return 2; } DL=&M->getDataLayout();
  Z3_global_param_set("model","true"); X.initZ3(); Z3_set_error_handler(X.z3,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); abort(); });
  S=Z3_mk_simple_solver(X.z3); if(getenv("VFSE_QFBV")) S=Z3_mk_solver_for_logic(X.z3,Z3_mk_string_symbol(X.z3,"QF_BV")); Z3_solver_inc_ref(X.z3,S); setTimeout(S,opt.queryMs);
  st=new State(); st->objs.push_back(newObj(OK_FUNC,0,true));
  for(auto&F:*M){ Fn*f=new Fn; f->F=&F; f->name=F.getName().str(); f->decl=F.isDeclaration(); if(auto*sp=F.getSubprogram()) f->file=sp->getFilename().str(); st->objs.push_back(newObj(OK_FUNC,1,true)); f->objid=(u32)st->objs.size()-1; fnOf[&F]=f; fnByObj[f->objid]=f; fns.push_back(f); }
  for(auto&Gv:M->globals()){ u64 sz=DL->getTypeAllocSize(Gv.getValueType()); if(sz==0||Gv.isDeclaration()) sz=std::max<u64>(sz,8); Obj*o=newObj(OK_GLOBAL,sz,true); st->objs.push_back(o); gvObj[&Gv]=(u32)st->objs.size()-1; }
  for(auto&Gv:M->globals()) if(Gv.hasInitializer()){ Obj*o=st->objs[gvObj[&Gv]]; writeConst(o,0,Gv.getInitializer()); o->ro=Gv.isConstant(); }
  for(auto*f:fns) if(!f->decl) decodeFn(f);
  // constructors, then the entry point
  Function*E=M->getFunction(opt.entry); if(!E||E->isDeclaration()){ fprintf(stderr,"no entry %s\n",opt.entry.c_str()); return 2; }
  pushFrame(fnOf[E],{},-1,0);
  if(auto*Ct=M->getGlobalVariable("llvm.global_ctors")) if(Ct->hasInitializer()) if(auto*CA=dyn_cast<ConstantArray>(Ct->getInitializer())){ std::vector<std::pair<u64,Fn*>> cs; for(auto&o:CA->operands()){ auto*s=cast<ConstantStruct>(o); if(auto*cf=dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(),fnOf[cf]}); } std::reverse(cs.begin(),cs.end()); for(auto&c:cs){ if(!c.second->decl) pushFrame(c.second,{},-1,0); } }
  work.push_back(st); runAll();
  __sync_fetch_and_add(&sh->idle,1); 
  writeResult(); while(wait(nullptr)>0){}
  fflush(stdout); _exit(0);
}
