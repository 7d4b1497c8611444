#include "expr.h"
void Ctx::ranges(Expr*e){
  unsigned w=e->w; uint64_t M=mask(w); int64_t smin=w>=64?INT64_MIN:-(1ll<<(w-1)), smax=w>=64?INT64_MAX:(1ll<<(w-1))-1;
  e->ulo=0;e->uhi=M;e->slo=smin;e->shi=smax;
  Expr*a=e->a,*b=e->b;
  bool haveS=false,haveU=false; __int128 l,h;
  auto setS=[&](__int128 lo,__int128 hi){ if(lo>=smin&&hi<=smax){ e->slo=(int64_t)lo;e->shi=(int64_t)hi;haveS=true;} };
  auto setU=[&](__int128 lo,__int128 hi){ if(lo>=0&&hi<=(__int128)M){ e->ulo=(uint64_t)lo;e->uhi=(uint64_t)hi;haveU=true;} };
  switch(e->op){
    case E_CONST: e->ulo=e->uhi=e->c; e->slo=e->shi=sx(e->c,w); return;
    case E_ZEXT: setU(a->ulo,a->uhi); break;
    case E_SEXT: setS(a->slo,a->shi); break;
    case E_ADD: setU((__int128)a->ulo+b->ulo,(__int128)a->uhi+b->uhi); setS((__int128)a->slo+b->slo,(__int128)a->shi+b->shi); break;
    case E_SUB: setU((__int128)a->ulo-b->uhi,(__int128)a->uhi-b->ulo); setS((__int128)a->slo-b->shi,(__int128)a->shi-b->slo); break;
    case E_MUL: { if(a->uhi<(1ull<<62)&&b->uhi<(1ull<<62)) setU((__int128)a->ulo*b->ulo,(__int128)a->uhi*b->uhi);
      __int128 p[4]={(__int128)a->slo*b->slo,(__int128)a->slo*b->shi,(__int128)a->shi*b->slo,(__int128)a->shi*b->shi}; l=h=p[0]; for(auto x:p){ if(x<l)l=x; if(x>h)h=x; } setS(l,h); break; }
    case E_UDIV: if(b->ulo>0) setU(a->ulo/b->uhi,a->uhi/b->ulo); break;
    case E_UREM: if(b->ulo>0) setU(0,std::min(a->uhi,b->uhi-1)); break;
    case E_SREM: if(isK(b)&&sx(b->c,w)>0){ int64_t m=sx(b->c,w)-1; setS(a->slo<0?-m:0,a->shi>0?m:0);} break;
    case E_SDIV: if(isK(b)&&sx(b->c,w)>0){ int64_t m=sx(b->c,w); setS(a->slo/m,a->shi/m);} break;
    case E_AND: setU(0,std::min(a->uhi,b->uhi)); break;
    case E_LSHR: if(isK(b)&&b->c<w) setU(a->ulo>>b->c,a->uhi>>b->c); break;
    case E_SHL: if(isK(b)&&b->c<w&&a->uhi<=(M>>b->c)) setU(a->ulo<<b->c,a->uhi<<b->c); break;
    case E_ASHR: if(isK(b)&&b->c<w) setS(a->slo>>b->c,a->shi>>b->c); break;
    case E_ITE: setU(std::min(e->b->ulo,e->d->ulo),std::max(e->b->uhi,e->d->uhi)); setS(std::min(e->b->slo,e->d->slo),std::max(e->b->shi,e->d->shi)); break;
    case E_EXTRACT: if(e->c==0){ if(a->uhi<=M) setU(a->ulo,a->uhi); if(a->slo>=smin&&a->shi<=smax) setS(a->slo,a->shi);} break;
    default: break;
  }
  // cross-refine
  if(haveU&&!haveS&&e->uhi<=(uint64_t)smax){ e->slo=(int64_t)e->ulo;e->shi=(int64_t)e->uhi; }
  if(haveS&&!haveU&&e->slo>=0){ e->ulo=(uint64_t)e->slo;e->uhi=(uint64_t)e->shi; }
}
Expr* Ctx::bin(Op op,Expr*a,Expr*b){
  unsigned w=a->w; uint64_t M=mask(w);
  if(isK(a)&&isK(b)){
    uint64_t x=a->c,y=b->c; int64_t p=sx(x,w),q=sx(y,w);
    switch(op){
      case E_AND:return K(x&y,w);case E_OR:return K(x|y,w);case E_XOR:return K(x^y,w);
      case E_ADD:return K(x+y,w);case E_SUB:return K(x-y,w);case E_MUL:return K(x*y,w);
      case E_UDIV:return K(y?x/y:M,w);case E_UREM:return K(y?x%y:x,w);
      case E_SDIV:return K(q==0?(p<0?1:M):(q==-1?0-x:(uint64_t)(p/q)),w);
      case E_SREM:return K(q==0?x:(q==-1?0:(uint64_t)(p%q)),w);
      case E_SHL:return K(y>=w?0:x<<y,w);case E_LSHR:return K(y>=w?0:x>>y,w);case E_ASHR:return K((uint64_t)(p>>(y>=w?w-1:y)),w);
      case E_EQ:return B(x==y);case E_ULT:return B(x<y);case E_ULE:return B(x<=y);case E_SLT:return B(p<q);case E_SLE:return B(p<=q);
      default: break;
    }
  }
  switch(op){
    case E_AND: if(isK(a)) std::swap(a,b); if(isK(b,0)) return b; if(isK(b,M)) return a; if(a==b) return a; if(w==1&&(not1(a)==b)) return B(false);
      if(isK(b)&&((b->c&(b->c+1))==0)&&a->uhi<=b->c) return a; break;
    case E_OR: if(isK(a)) std::swap(a,b); if(isK(b,0)) return a; if(isK(b,M)) return b; if(a==b) return a; if(w==1&&(not1(a)==b)) return B(true); break;
    case E_XOR: if(isK(a)) std::swap(a,b); if(isK(b,0)) return a; if(a==b) return K(0,w); if(w==1&&isK(b,1)) return not1(a); break;
    case E_ADD: if(isK(a)) std::swap(a,b); if(isK(b,0)) return a; if(isK(b)&&a->op==E_ADD&&isK(a->b)) return bin(E_ADD,a->a,K(a->b->c+b->c,w));
      if(isK(b)&&a->op==E_SUB&&isK(a->b)) return bin(E_ADD,a->a,K(b->c-a->b->c,w)); break;
    case E_SUB: if(isK(b,0)) return a; if(a==b) return K(0,w); if(isK(b)) return bin(E_ADD,a,K(0-b->c,w)); 
      if(a->op==E_ADD){ if(a->a==b) return a->b; if(a->b==b) return a->a; } break;
    case E_MUL: if(isK(a)) std::swap(a,b); if(isK(b,0)) return b; if(isK(b,1)) return a; break;
    case E_UDIV: case E_SDIV: if(isK(b,1)) return a;
      if(op==E_UDIV&&isK(b)&&w==64&&b->c&&b->c<(1u<<20)){ Expr*t=a; uint64_t k=0; if(t->op==E_ADD&&isK(t->b)&&t->b->c%b->c==0&&t->slo>=0){ k=t->b->c/b->c; t=t->a; } Expr*x=nullptr;
        if(t->op==E_MUL&&t->b==b) x=t->a; else if(t->op==E_SHL&&isK(t->b)&&t->b->c<20&&(1ull<<t->b->c)==b->c) x=t->a;
        if(x&&a->slo>=0&&x->slo>-(1ll<<40)&&x->shi<(1ll<<40)&&k<(1ull<<40)) return k?bin(E_ADD,x,K(k,w)):x; } if(op==E_SDIV&&a->slo>=0&&b->slo>0) return bin(E_UDIV,a,b);
      if(op==E_UDIV&&isK(b)&&b->c&&!(b->c&(b->c-1))) return bin(E_LSHR,a,K((uint64_t)__builtin_ctzll(b->c),w)); break;
    case E_UREM: if(isK(b,1)) return K(0,w); if(isK(b)&&a->uhi<b->c) return a; if(isK(b)&&b->c&&!(b->c&(b->c-1))) return bin(E_AND,a,K(b->c-1,w)); break;
    case E_SREM: if(a->slo>=0&&b->slo>0) return bin(E_UREM,a,b); break;
    case E_SHL: if(isK(b,0)) return a; if(isK(b)&&b->c>=w) return K(0,w); break;
    case E_LSHR: if(isK(b,0)) return a; if(isK(b)&&b->c>=w) return K(0,w); if(isK(b)&&a->op==E_SHL&&a->b==b&&a->a->uhi<=(M>>b->c)) return a->a; break;
    case E_ASHR: if(isK(b,0)) return a; if(a->slo>=0) return bin(E_LSHR,a,b);
      if(isK(b)&&a->op==E_SHL&&a->b==b&&b->c<w){ // sign-extension idiom
        if(a->a->slo>=(w>=64?INT64_MIN:-(1ll<<(w-1)))/(1ll<<b->c)&&a->a->shi<=((int64_t)(M>>1)>>b->c)) return a->a; } break;
    case E_EQ: if(a==b) return B(true); if(isK(a)) std::swap(a,b);
      if(a->uhi<b->ulo||b->uhi<a->ulo||a->shi<b->slo||b->shi<a->slo) return B(false);
      if(w==1&&isK(b)) return b->c?a:not1(a);
      if(isK(b)){
        if(a->op==E_ZEXT) return bin(E_EQ,a->a,K(b->c,a->a->w)); // range check above ensures fit
        if(a->op==E_SEXT) return bin(E_EQ,a->a,K(b->c,a->a->w));
        if(a->op==E_ADD&&isK(a->b)) return bin(E_EQ,a->a,K(b->c-a->b->c,w));
        if(a->op==E_ITE&&(isK(a->b)||isK(a->d))) return ite(a->a,bin(E_EQ,a->b,b),bin(E_EQ,a->d,b)); }
      if(a->op==E_ZEXT&&b->op==E_ZEXT){ unsigned mw=std::max(a->a->w,b->a->w); return bin(E_EQ,zext(a->a,mw),zext(b->a,mw)); }
      if(!isK(b)&&a->id>b->id) std::swap(a,b);
      break;
    case E_ULT: case E_ULE:
      if(a==b) return B(op==E_ULE);
      if(a->uhi<b->ulo) return B(true); if(a->ulo>b->uhi) return B(false);
      if(op==E_ULE&&a->uhi<=b->ulo) return B(true); if(op==E_ULT&&a->ulo>=b->uhi) return B(false);
      if(a->op==E_ZEXT&&b->op==E_ZEXT){ unsigned mw=std::max(a->a->w,b->a->w); return bin(op,zext(a->a,mw),zext(b->a,mw)); }
      if(a->op==E_ZEXT&&isK(b)&&b->c<=mask(a->a->w)) return bin(op,a->a,K(b->c,a->a->w));
      if(b->op==E_ZEXT&&isK(a)&&a->c<=mask(b->a->w)) return bin(op,K(a->c,b->a->w),b->a);
      break;
    case E_SLT: case E_SLE:
      if(a==b) return B(op==E_SLE);
      if(a->shi<b->slo) return B(true); if(a->slo>b->shi) return B(false);
      if(op==E_SLE&&a->shi<=b->slo) return B(true); if(op==E_SLT&&a->slo>=b->shi) return B(false);
      if(a->slo>=0&&b->slo>=0) return bin(op==E_SLT?E_ULT:E_ULE,a,b);
      if(a->op==E_SEXT&&b->op==E_SEXT){ unsigned mw=std::max(a->a->w,b->a->w); return bin(op,sext(a->a,mw),sext(b->a,mw)); }
      if(a->op==E_SEXT&&isK(b)) return bin(op,a->a,K(b->c,a->a->w)); // b lies within a's range (checked above)
      if(b->op==E_SEXT&&isK(a)) return bin(op,K(a->c,b->a->w),b->a);
      break;
    default: break;
  }
  bool cmp=op>=E_EQ&&op<=E_SLE;
  if((op==E_AND||op==E_OR||op==E_XOR||op==E_ADD||op==E_MUL)&&!isK(b)&&a->id>b->id) std::swap(a,b);
  return raw(op,cmp?1:(uint8_t)w,0,a,b);
}
uint64_t Ctx::evalRec(Expr*e,const std::vector<uint64_t>&m){
  if(e->op==E_CONST) return e->c;
  if(e->op==E_VAR) return e->c<m.size()?(m[e->c]&mask(e->w)):0;
  if(e->evEpoch==epoch) return e->ev;
  uint64_t r=0; unsigned w=e->w;
  if(e->op==E_ITE){ r=evalRec(e->a,m)?evalRec(e->b,m):evalRec(e->d,m); e->ev=r; e->evEpoch=epoch; return r; }
  uint64_t x=e->a?evalRec(e->a,m):0,y=e->b?evalRec(e->b,m):0; unsigned aw=e->a->w; int64_t p=sx(x,aw),q=e->b?sx(y,e->b->w):0; uint64_t M=mask(w);
  switch(e->op){
    case E_NOT: r=!x; break; case E_AND:r=x&y;break; case E_OR:r=x|y;break; case E_XOR:r=x^y;break;
    case E_ADD:r=x+y;break; case E_SUB:r=x-y;break; case E_MUL:r=x*y;break;
    case E_UDIV:r=y?x/y:M;break; case E_UREM:r=y?x%y:x;break;
    case E_SDIV:r=q==0?(p<0?1:M):(q==-1?0-x:(uint64_t)(p/q));break;
    case E_SREM:r=q==0?x:(q==-1?0:(uint64_t)(p%q));break;
    case E_SHL:r=y>=w?0:x<<y;break; case E_LSHR:r=y>=w?0:x>>y;break; case E_ASHR:r=(uint64_t)(p>>(y>=w?w-1:y));break;
    case E_EQ:r=x==y;break; case E_ULT:r=x<y;break; case E_ULE:r=x<=y;break; case E_SLT:r=p<q;break; case E_SLE:r=p<=q;break;
    case E_ZEXT:r=x;break; case E_SEXT:r=(uint64_t)p;break; case E_EXTRACT:r=x>>e->c;break; case E_CONCAT:r=(x<<e->b->w)|y;break;
    case E_FADD:case E_FSUB:case E_FMUL:case E_FDIV:case E_FREM: r=fop(e->op,w,x,y);break;
    case E_FNEG: r=x^(1ull<<(w-1));break; case E_FABS: r=x&mask(w-1);break;
    case E_FSQRT: r=w==64?ofD(std::sqrt(asD(x))):ofF(sqrtf(asF(x)));break;
    case E_FFLOOR: r=w==64?ofD(std::floor(asD(x))):ofF(floorf(asF(x)));break;
    case E_FCEIL: r=w==64?ofD(std::ceil(asD(x))):ofF(ceilf(asF(x)));break;
    case E_FEQ:case E_FLT:case E_FLE:case E_FUNO:{ double u=aw==64?asD(x):asF(x),v=aw==64?asD(y):asF(y); r=e->op==E_FEQ?u==v:e->op==E_FLT?u<v:e->op==E_FLE?u<=v:(u!=u||v!=v); break;}
    case E_SI2F: r=w==64?ofD((double)p):ofF((float)p);break; case E_UI2F: r=w==64?ofD((double)x):ofF((float)x);break;
    case E_F2SI:case E_F2UI:{ Expr k; r=f2i(K(x,aw),w,e->op==E_F2SI)->c; break;}
    case E_FPEXT: r=ofD((double)asF(x));break; case E_FPTRUNC: r=ofF((float)asD(x));break;
    default: break;
  }
  r&=M; e->ev=r; e->evEpoch=epoch; return r;
}
Expr* Ctx::rebuild(Expr*e,Expr*a,Expr*b,Expr*d){
  switch(e->op){
    case E_NOT:return not1(a); case E_ITE:return ite(a,b,d); case E_ZEXT:return zext(a,e->w); case E_SEXT:return sext(a,e->w);
    case E_EXTRACT:return extract(a,(unsigned)e->c,e->w); case E_CONCAT:return concat(a,b);
    case E_FADD:case E_FSUB:case E_FMUL:case E_FDIV:case E_FREM:return fbin(e->op,a,b);
    case E_FNEG:return fneg(a);case E_FABS:return fabs_(a);case E_FSQRT:return fsqrt(a);case E_FFLOOR:return ffloor(a,false);case E_FCEIL:return ffloor(a,true);
    case E_FEQ:case E_FLT:case E_FLE:case E_FUNO:return fcmp(e->op,a,b);
    case E_SI2F:return si2f(a,e->w);case E_UI2F:return ui2f(a,e->w);case E_F2SI:return f2i(a,e->w,true);case E_F2UI:return f2i(a,e->w,false);
    case E_FPEXT:return fpext(a);case E_FPTRUNC:return fptrunc(a);
    default:return bin(e->op,a,b);
  }
}
Expr* Ctx::simpRec(Expr*e,const uint64_t*km,const std::vector<uint64_t>&kv){
  if(e->op==E_CONST) return e;
  if(!((e->sup[0]&km[0])|(e->sup[1]&km[1])|(e->sup[2]&km[2])|(e->sup[3]&km[3]))) return e;
  if(e->op==E_VAR){ if(e->c<256&&((km[(e->c>>6)&3]>>(e->c&63))&1)) return K(kv[e->c],e->w); return e; }
  if(e->smEpoch==smEpoch) return e->sm;
  Expr*r=rebuild(e,e->a?simpRec(e->a,km,kv):nullptr,e->b?simpRec(e->b,km,kv):nullptr,e->d?simpRec(e->d,km,kv):nullptr);
  e->sm=r; e->smEpoch=smEpoch; return r;
}
Expr* Ctx::pcRec(Expr*e){
  if(e->op==E_CONST||e->op==E_VAR&&e->w>1) return e;
  if(e->psEpoch==pcEpoch) return e->ps;
  Expr*r=e;
  if(e->w==1){ int v=litValue(e); if(v) { r=B(v>0); e->ps=r; e->psEpoch=pcEpoch; return r; } }
  if(e->op==E_ITE){ Expr*c=pcRec(e->a); if(c->op==E_CONST) r=pcRec(c->c?e->b:e->d); else { Expr*x=pcRec(e->b),*y=pcRec(e->d); if(c!=e->a||x!=e->b||y!=e->d) r=ite(c,x,y); } }
  else if(e->a){ Expr*a=pcRec(e->a),*b=e->b?pcRec(e->b):nullptr,*d=e->d?pcRec(e->d):nullptr; if(a!=e->a||b!=e->b||d!=e->d){ r=rebuild(e,a,b,d); if(r->w==1&&r->op!=E_CONST){ int v=litValue(r); if(v) r=B(v>0); } } }
  e->ps=r; e->psEpoch=pcEpoch; return r; }
Z3_ast Ctx::toZ(Expr*e){
  if(e->hasZ) return e->z;
  Z3_context c=z3; Z3_ast r=nullptr; if(!rne){ rne=Z3_mk_fpa_rne(c); Z3_inc_ref(c,rne);} 
  auto bvs=[&](unsigned w){return Z3_mk_bv_sort(c,w);};
  auto bo=[&](Z3_ast t){ return t; };
  // booleans (w==1 predicate ops) are z3 Bool; BV1 are represented as Bool everywhere.
  auto asBV=[&](Expr*x)->Z3_ast{ Z3_ast t=toZ(x); if(x->w==1) return Z3_mk_ite(c,t,Z3_mk_unsigned_int64(c,1,bvs(1)),Z3_mk_unsigned_int64(c,0,bvs(1))); return t; };
  auto fp=[&](Expr*x)->Z3_ast{ if(x->op==E_SI2F) return Z3_mk_fpa_to_fp_signed(c,rne,toZ(x->a),x->w==64?fs64:fs32); return Z3_mk_fpa_to_fp_bv(c,toZ(x),x->w==64?fs64:fs32); };
  auto fb=[&](Z3_ast t){ return Z3_mk_fpa_to_ieee_bv(c,t); };
  (void)bo;
  unsigned w=e->w; Z3_ast A=nullptr,Bz=nullptr;
  if((e->op==E_ULT||e->op==E_ULE||e->op==E_EQ)&&e->a->w>=16){ unsigned k=1; while(k<64&&(e->a->uhi>>k||e->b->uhi>>k)) k++;
    if(k+4<=e->a->w){ A=Z3_mk_extract(c,k-1,0,asBV(e->a)); Bz=Z3_mk_extract(c,k-1,0,asBV(e->b)); r=e->op==E_ULT?Z3_mk_bvult(c,A,Bz):e->op==E_ULE?Z3_mk_bvule(c,A,Bz):Z3_mk_eq(c,A,Bz); Z3_inc_ref(c,r); e->z=r; e->hasZ=true; return r; } }
  if(e->a&&e->a->w>=16&&(e->op==E_ADD||e->op==E_SUB||e->op==E_MUL||e->op==E_EQ||e->op==E_SLT||e->op==E_SLE)){ // compute at the width the ranges need
    unsigned k=std::max(sbits(e->a),sbits(e->b)); bool ar=e->op<E_EQ; if(ar) k=std::max(k,sbits(e));
    if(ar&&e->op!=E_MUL){ __int128 lo=e->op==E_ADD?(__int128)e->a->slo+e->b->slo:(__int128)e->a->slo-e->b->shi,hi=e->op==E_ADD?(__int128)e->a->shi+e->b->shi:(__int128)e->a->shi-e->b->slo,m=(__int128)1<<(k-1); if(lo<-m||hi>=m) k=64; }
    if(e->op==E_MUL){ __int128 p[4]={(__int128)e->a->slo*e->b->slo,(__int128)e->a->slo*e->b->shi,(__int128)e->a->shi*e->b->slo,(__int128)e->a->shi*e->b->shi}; __int128 m=(__int128)1<<(k-1); for(auto v:p) if(v<-m||v>=m){ if(!(e->a==e->b&&v<0)) k=64; } }
    if(k+4<=e->a->w){ auto nar=[&](Expr*x){ return Z3_mk_extract(c,k-1,0,asBV(x)); };
      A=nar(e->a); Bz=nar(e->b);
      switch(e->op){ case E_ADD:r=Z3_mk_bvadd(c,A,Bz);break; case E_SUB:r=Z3_mk_bvsub(c,A,Bz);break; case E_MUL:r=Z3_mk_bvmul(c,A,Bz);break; case E_EQ:r=Z3_mk_eq(c,A,Bz);break; case E_SLT:r=Z3_mk_bvslt(c,A,Bz);break; default:r=Z3_mk_bvsle(c,A,Bz);break; }
      if(ar) r=Z3_mk_sign_ext(c,w-k,r);
      Z3_inc_ref(c,r); e->z=r; e->hasZ=true; return r; } }
  switch(e->op){
    case E_CONST: r=w==1?(e->c?Z3_mk_true(c):Z3_mk_false(c)):Z3_mk_unsigned_int64(c,e->c,bvs(w)); break;
    case E_VAR:{ std::string n="v"+std::to_string(e->c); r=Z3_mk_const(c,Z3_mk_string_symbol(c,n.c_str()),w==1?Z3_mk_bool_sort(c):bvs(w)); break;}
    case E_NOT: r=Z3_mk_not(c,toZ(e->a)); break;
    case E_AND: case E_OR: case E_XOR: A=toZ(e->a);Bz=toZ(e->b);
      if(w==1){ Z3_ast ab[2]={A,Bz}; r=e->op==E_AND?Z3_mk_and(c,2,ab):e->op==E_OR?Z3_mk_or(c,2,ab):Z3_mk_xor(c,A,Bz);} else r=e->op==E_AND?Z3_mk_bvand(c,A,Bz):e->op==E_OR?Z3_mk_bvor(c,A,Bz):Z3_mk_bvxor(c,A,Bz); break;
    case E_ADD:r=Z3_mk_bvadd(c,asBV(e->a),asBV(e->b));break; case E_SUB:r=Z3_mk_bvsub(c,asBV(e->a),asBV(e->b));break; case E_MUL:r=Z3_mk_bvmul(c,asBV(e->a),asBV(e->b));break;
    case E_UDIV:r=Z3_mk_bvudiv(c,asBV(e->a),asBV(e->b));break; case E_SDIV:r=Z3_mk_bvsdiv(c,asBV(e->a),asBV(e->b));break;
    case E_UREM:r=Z3_mk_bvurem(c,asBV(e->a),asBV(e->b));break; case E_SREM:r=Z3_mk_bvsrem(c,asBV(e->a),asBV(e->b));break;
    case E_SHL:r=Z3_mk_bvshl(c,asBV(e->a),asBV(e->b));break; case E_LSHR:r=Z3_mk_bvlshr(c,asBV(e->a),asBV(e->b));break; case E_ASHR:r=Z3_mk_bvashr(c,asBV(e->a),asBV(e->b));break;
    case E_EQ: r=Z3_mk_eq(c,toZ(e->a),toZ(e->b));break;
    case E_ULT:r=Z3_mk_bvult(c,asBV(e->a),asBV(e->b));break; case E_ULE:r=Z3_mk_bvule(c,asBV(e->a),asBV(e->b));break;
    case E_SLT:r=Z3_mk_bvslt(c,asBV(e->a),asBV(e->b));break; case E_SLE:r=Z3_mk_bvsle(c,asBV(e->a),asBV(e->b));break;
    case E_ITE: r=Z3_mk_ite(c,toZ(e->a),toZ(e->b),toZ(e->d));break;
    case E_ZEXT:r=Z3_mk_zero_ext(c,w-e->a->w,asBV(e->a));break; case E_SEXT:r=Z3_mk_sign_ext(c,w-e->a->w,asBV(e->a));break;
    case E_EXTRACT:r=Z3_mk_extract(c,(unsigned)e->c+w-1,(unsigned)e->c,asBV(e->a)); if(w==1) r=Z3_mk_eq(c,r,Z3_mk_unsigned_int64(c,1,bvs(1))); break;
    case E_CONCAT:r=Z3_mk_concat(c,asBV(e->a),asBV(e->b));break;
    case E_FADD:r=fb(Z3_mk_fpa_add(c,rne,fp(e->a),fp(e->b)));break; case E_FSUB:r=fb(Z3_mk_fpa_sub(c,rne,fp(e->a),fp(e->b)));break;
    case E_FMUL:r=fb(Z3_mk_fpa_mul(c,rne,fp(e->a),fp(e->b)));break; case E_FDIV:r=fb(Z3_mk_fpa_div(c,rne,fp(e->a),fp(e->b)));break;
    case E_FREM:r=fb(Z3_mk_fpa_rem(c,fp(e->a),fp(e->b)));break;
    case E_FNEG:r=fb(Z3_mk_fpa_neg(c,fp(e->a)));break; case E_FABS:r=fb(Z3_mk_fpa_abs(c,fp(e->a)));break; case E_FSQRT:r=fb(Z3_mk_fpa_sqrt(c,rne,fp(e->a)));break;
    case E_FFLOOR:r=fb(Z3_mk_fpa_round_to_integral(c,Z3_mk_fpa_rtn(c),fp(e->a)));break; case E_FCEIL:r=fb(Z3_mk_fpa_round_to_integral(c,Z3_mk_fpa_rtp(c),fp(e->a)));break;
    case E_FEQ:r=Z3_mk_fpa_eq(c,fp(e->a),fp(e->b));break; case E_FLT:r=Z3_mk_fpa_lt(c,fp(e->a),fp(e->b));break; case E_FLE:r=Z3_mk_fpa_leq(c,fp(e->a),fp(e->b));break;
    case E_FUNO:{ Z3_ast ab[2]={Z3_mk_fpa_is_nan(c,fp(e->a)),Z3_mk_fpa_is_nan(c,fp(e->b))}; r=Z3_mk_or(c,2,ab);break;}
    case E_SI2F:r=fb(Z3_mk_fpa_to_fp_signed(c,rne,toZ(e->a),w==64?fs64:fs32));break; case E_UI2F:r=fb(Z3_mk_fpa_to_fp_unsigned(c,rne,toZ(e->a),w==64?fs64:fs32));break;
    case E_F2SI:r=Z3_mk_fpa_to_sbv(c,Z3_mk_fpa_rtz(c),fp(e->a),w);break; case E_F2UI:r=Z3_mk_fpa_to_ubv(c,Z3_mk_fpa_rtz(c),fp(e->a),w);break;
    case E_FPEXT:r=fb(Z3_mk_fpa_to_fp_float(c,rne,fp(e->a),fs64));break; case E_FPTRUNC:r=fb(Z3_mk_fpa_to_fp_float(c,rne,fp(e->a),fs32));break;
  }
  Z3_inc_ref(c,r); e->z=r; e->hasZ=true; return r;
}
static const char*opn[]={"const","var","not","and","or","xor","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","feq","flt","fle","funo","si2f","ui2f","f2si","f2ui","fpext","fptrunc","ffloor","fceil"};
std::string Ctx::show(Expr*e,int d){ if(e->op==E_CONST) return std::to_string(e->c)+":"+std::to_string(e->w); if(e->op==E_VAR) return "v"+std::to_string(e->c); if(d<=0) return "..."; std::string s=std::string("(")+opn[e->op]; for(Expr*x:{e->a,e->b,e->d}) if(x) s+=" "+show(x,d-1); return s+")"; }
