// Hash-consed bit-vector / floating-point expression DAG with on-the-fly simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <z3.h>

enum Op : uint8_t {
  E_CONST, E_VAR,
  E_NOT, E_AND, E_OR, E_XOR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT /*imm=lo*/, E_CONCAT /*a high,b low*/,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FNEG, E_FABS, E_FSQRT, E_FEQ, E_FLT, E_FLE, E_FUNO,
  E_SI2F, E_UI2F, E_F2SI, E_F2UI, E_FPEXT, E_FPTRUNC, E_FFLOOR, E_FCEIL
};

struct Expr {
  Op op; uint8_t w; bool undef; uint32_t id; uint64_t c; // c: const value / var index / extract lo
  Expr *a, *b, *d;
  bool fp; int8_t pcm;       // contains unfolded floating point; marked in the current path condition
  uint64_t sup[4];           // support bitset (vars mod 256)
  int64_t slo, shi;          // signed range
  uint64_t ulo, uhi;         // unsigned range
  Z3_ast z; bool hasZ;
  uint64_t ev; uint64_t evEpoch;
  Expr* sm; uint64_t smEpoch; Expr* ps; uint64_t psEpoch;
  double flo, fhi; int8_t frk;   // floating-point interval, known not NaN (frk: 0 not computed, 1 known, -1 none)
};

inline uint64_t mask(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
inline int64_t sx(uint64_t v, unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=mask(w); return (int64_t)((v^m)-m); }
inline double asD(uint64_t v){ double d; memcpy(&d,&v,8); return d; }
inline uint64_t ofD(double d){ uint64_t v; memcpy(&v,&d,8); return v; }
inline float asF(uint64_t v){ uint32_t u=(uint32_t)v; float d; memcpy(&d,&u,4); return d; }
inline uint64_t ofF(float d){ uint32_t v; memcpy(&v,&d,4); return v; }

struct Ctx {
  std::unordered_multimap<uint64_t, Expr*> tab;
  uint32_t nextId=0; uint64_t epoch=0; uint64_t smEpoch=0;
  std::vector<Expr*> vars; // by index
  static uint64_t hash(Op op,uint8_t w,uint64_t c,Expr*a,Expr*b,Expr*d){
    uint64_t h=1469598103934665603ull; auto mix=[&](uint64_t x){ h^=x; h*=1099511628211ull; h^=h>>29; };
    mix(op); mix(w); mix(c); mix(a?a->id+1:0); mix(b?b->id+1:0); mix(d?d->id+1:0); return h; }
  void ranges(Expr*e);
  static unsigned sbits(Expr*e){ unsigned k=1; while(k<64&&(e->slo<-(1ll<<(k-1))||e->shi>(1ll<<(k-1))-1)) k++; return k; } // signed width that holds the range
  Expr* raw(Op op,uint8_t w,uint64_t c,Expr*a=nullptr,Expr*b=nullptr,Expr*d=nullptr){
    uint64_t h=hash(op,w,c,a,b,d);
    auto r=tab.equal_range(h);
    for(auto it=r.first;it!=r.second;++it){ Expr*e=it->second; if(e->op==op&&e->w==w&&e->c==c&&e->a==a&&e->b==b&&e->d==d) return e; }
    Expr*e=new Expr(); e->op=op;e->w=w;e->c=c;e->a=a;e->b=b;e->d=d;e->id=nextId++; e->undef=false;
    for(int i=0;i<4;i++) e->sup[i]=(a?a->sup[i]:0)|(b?b->sup[i]:0)|(d?d->sup[i]:0);
    e->undef=(a&&a->undef)||(b&&b->undef)||(d&&d->undef);
    e->fp=(a&&a->fp)||(b&&b->fp)||(d&&d->fp)||(op>=E_FADD);
    if(op==E_VAR) e->sup[(c>>6)&3]|=1ull<<(c&63);
    ranges(e); tab.emplace(h,e); return e; }
  Expr* K(uint64_t v,unsigned w){ return raw(E_CONST,w,v&mask(w)); }
  Expr* B(bool v){ return K(v,1); }
  Expr* var(unsigned w,bool undef=false){ uint64_t i=vars.size(); Expr*e=raw(E_VAR,w,i); e->undef=undef; vars.push_back(e); return e; }
  bool isK(Expr*e){ return e->op==E_CONST; }
  bool isK(Expr*e,uint64_t v){ return e->op==E_CONST && e->c==(v&mask(e->w)); }
  Expr* bin(Op op,Expr*a,Expr*b);
  Expr* not1(Expr*a){ // boolean negation
    if(isK(a)) return B(!a->c);
    if(a->op==E_NOT) return a->a;
    if(a->op==E_ULT) return bin(E_ULE,a->b,a->a);
    if(a->op==E_ULE) return bin(E_ULT,a->b,a->a);
    if(a->op==E_SLT) return bin(E_SLE,a->b,a->a);
    if(a->op==E_SLE) return bin(E_SLT,a->b,a->a);
    return raw(E_NOT,1,0,a); }
  Expr* ite(Expr*c,Expr*t,Expr*f){
    if(isK(c)) return c->c?t:f; if(t==f) return t;
    if(c->op==E_NOT) return ite(c->a,f,t);
    if(t->w==1){ if(isK(t)&&isK(f)) return t->c?c:not1(c);
      if(isK(t)) return t->c?bin(E_OR,c,f):bin(E_AND,not1(c),f);
      if(isK(f)) return f->c?bin(E_OR,not1(c),t):bin(E_AND,c,t); }
    if(exactI2F(t)||exactI2F(f)){ Expr*x=toI(t),*y=toI(f); if(x&&y) return si2f(ite(c,x,y),t->w); }
    return raw(E_ITE,t->w,0,c,t,f); }
  Expr* zext(Expr*a,unsigned w){ if(a->w==w) return a; if(isK(a)) return K(a->c,w); if(a->op==E_ZEXT) return zext(a->a,w); return raw(E_ZEXT,w,0,a); }
  Expr* sext(Expr*a,unsigned w){ if(a->w==w) return a; if(isK(a)) return K((uint64_t)sx(a->c,a->w),w);
    if(a->w>0 && a->uhi < (1ull<<(a->w-1))) return zext(a,w);
    if(a->op==E_SEXT) return sext(a->a,w);
    if((a->op==E_ADD||a->op==E_SUB)&&w<=64&&a->w<64){ // no wrap: extend the operands instead
      __int128 lo=a->op==E_ADD?(__int128)a->a->slo+a->b->slo:(__int128)a->a->slo-a->b->shi,hi=a->op==E_ADD?(__int128)a->a->shi+a->b->shi:(__int128)a->a->shi-a->b->slo,m=(__int128)1<<(a->w-1);
      if(lo>=-m&&hi<m) return bin(a->op,sext(a->a,w),sext(a->b,w)); }
    return raw(E_SEXT,w,0,a); }
  Expr* extract(Expr*a,unsigned lo,unsigned w){
    if(lo==0&&w==a->w) return a; if(isK(a)) return K(a->c>>lo,w);
    if(a->op==E_ZEXT||a->op==E_SEXT){ unsigned iw=a->a->w; if(lo+w<=iw) return extract(a->a,lo,w); if(a->op==E_ZEXT&&lo>=iw) return K(0,w); if(lo==0&&w>iw) return a->op==E_ZEXT?zext(a->a,w):sext(a->a,w); }
    if(a->op==E_EXTRACT) return extract(a->a,lo+(unsigned)a->c,w);
    if(a->op==E_CONCAT){ unsigned bw=a->b->w; if(lo+w<=bw) return extract(a->b,lo,w); if(lo>=bw) return extract(a->a,lo-bw,w); }
    if(lo==0&&(a->op==E_ADD||a->op==E_SUB||a->op==E_MUL||a->op==E_AND||a->op==E_OR||a->op==E_XOR)) return bin(a->op,extract(a->a,0,w),extract(a->b,0,w));
    if(a->op==E_ITE) { if(isK(a->b)||isK(a->d)) return ite(a->a,extract(a->b,lo,w),extract(a->d,lo,w)); }
    return raw(E_EXTRACT,w,lo,a); }
  Expr* concat(Expr*hi,Expr*lo){ unsigned w=hi->w+lo->w; if(isK(hi)&&isK(lo)) return K((hi->c<<lo->w)|lo->c,w);
    if(isK(hi,0)) return zext(lo,w);
    if(hi->op==E_EXTRACT&&lo->op==E_EXTRACT&&hi->a==lo->a&&hi->c==lo->c+lo->w) return extract(hi->a,(unsigned)lo->c,w);
    if(hi->op==E_EXTRACT&&hi->a==lo&&hi->c==lo->w) { return extract(lo,0,w); }
    return raw(E_CONCAT,w,0,hi,lo); }
  // ---- floating point ----
  static int64_t lim(unsigned w){ return w==64? (1ll<<53):(1ll<<24); }
  bool exactI2F(Expr*e){ return e->op==E_SI2F && e->a->slo>=-lim(e->w) && e->a->shi<=lim(e->w); }
  // integer view (64-bit signed expr) of an fp expression that is exactly integral, or null
  Expr* toI(Expr*e){
    if(exactI2F(e)) return e->a;
    if(isK(e)){ double v=e->w==64?asD(e->c):asF(e->c); if(v==std::floor(v)&&std::fabs(v)<=(double)lim(e->w)&&!(v==0&&std::signbit(v))) return K((uint64_t)(int64_t)v,64); }
    return nullptr; }
  Expr* si2f(Expr*a,unsigned w){ // a signed any width
    if(isK(a)){ int64_t v=sx(a->c,a->w); return w==64?K(ofD((double)v),64):K(ofF((float)v),32); }
    return raw(E_SI2F,w,0,sext(a,64)); }
  Expr* ui2f(Expr*a,unsigned w){
    if(isK(a)) return w==64?K(ofD((double)a->c),64):K(ofF((float)a->c),32);
    if(a->w<64||a->uhi<(1ull<<63)) return raw(E_SI2F,w,0,zext(a,64));
    return raw(E_UI2F,w,0,a); }
  double fv(Expr*e){ return e->w==64?asD(e->c):(double)asF(e->c); }
  static uint64_t fop(Op op,unsigned w,uint64_t a,uint64_t b){
    if(w==64){ double x=asD(a),y=asD(b),r=0; switch(op){case E_FADD:r=x+y;break;case E_FSUB:r=x-y;break;case E_FMUL:r=x*y;break;case E_FDIV:r=x/y;break;case E_FREM:r=fmod(x,y);break;default:;} return ofD(r);}
    float x=asF(a),y=asF(b),r=0; switch(op){case E_FADD:r=x+y;break;case E_FSUB:r=x-y;break;case E_FMUL:r=x*y;break;case E_FDIV:r=x/y;break;case E_FREM:r=fmodf(x,y);break;default:;} return ofF(r); }
  Expr* fbin(Op op,Expr*a,Expr*b){
    unsigned w=a->w;
    if(isK(a)&&isK(b)) return K(fop(op,w,a->c,b->c),w);
    Expr*x=toI(a),*y=toI(b);
    if(x&&y){
      if(op==E_FADD||op==E_FSUB){ Expr*r=bin(op==E_FADD?E_ADD:E_SUB,x,y); if(r->slo>=-lim(w)&&r->shi<=lim(w)) return si2f(r,w); }
      if(op==E_FMUL && ((x->slo>=0&&y->slo>=0)||x==y||x->slo>0||y->slo>0)){ Expr*r=x==y?sqr(x):bin(E_MUL,x,y); if(r->slo>=-lim(w)&&r->shi<=lim(w)) return si2f(r,w); }
    }
    if(op==E_FADD||op==E_FMUL){ // commutative canonical order
      if(op==E_FMUL&&a==b&&a->op==E_FSUB&&a->a->id>a->b->id){ Expr*s=fbin(E_FSUB,a->b,a->a); return raw(E_FMUL,w,0,s,s); }
      if(op==E_FMUL&&a==b&&a->op==E_FNEG) return fbin(E_FMUL,a->a,a->a);
      if(isK(a)|| (!isK(b)&&a->id>b->id)) std::swap(a,b);
      if(op==E_FADD&&isK(b)&&fv(b)==0&&std::signbit(fv(b))) return a; // x + (-0) = x
      if(op==E_FMUL&&isK(b)&&fv(b)==1) return a; }
    if(op==E_FDIV&&isK(b)&&fv(b)==1) return a;
    if(op==E_FSUB&&isK(b)&&fv(b)==0&&!std::signbit(fv(b))) return a;
    return raw(op,w,0,a,b); }
  Expr* sqr(Expr*x){ // x*x with a non-negative range
    Expr*r=bin(E_MUL,x,x); if(r->op==E_MUL){ int64_t m=std::max(std::llabs(x->slo),std::llabs(x->shi)); if(x->slo>-(1ll<<30)&&x->shi<(1ll<<30)){ r->slo=0; r->shi=m*m; r->ulo=0; r->uhi=(uint64_t)(m*m);} } return r; }
  Expr* fneg(Expr*a){ if(isK(a)) return K(a->c^(1ull<<(a->w-1)),a->w); if(a->op==E_FNEG) return a->a; if(exactI2F(a)&&(a->a->slo>0||a->a->shi<0)) return si2f(bin(E_SUB,K(0,64),a->a),a->w); if(!a->fp) return bin(E_XOR,a,K(1ull<<(a->w-1),a->w)); return raw(E_FNEG,a->w,0,a); }
  Expr* fabs_(Expr*a){ if(isK(a)) return K(a->c&mask(a->w-1),a->w); if(exactI2F(a)){ if(a->a->slo>=0) return a; return si2f(ite(bin(E_SLT,a->a,K(0,64)),bin(E_SUB,K(0,64),a->a),a->a),a->w);} if(!a->fp) return bin(E_AND,a,K(mask(a->w-1),a->w)); return raw(E_FABS,a->w,0,a); }
  Expr* fsqrt(Expr*a){ if(isK(a)) return a->w==64?K(ofD(std::sqrt(asD(a->c))),64):K(ofF(sqrtf(asF(a->c))),32); return raw(E_FSQRT,a->w,0,a); }
  Expr* ffloor(Expr*a,bool ceil_){ if(isK(a)) return a->w==64?K(ofD(ceil_?std::ceil(asD(a->c)):std::floor(asD(a->c))),64):K(ofF(ceil_?ceilf(asF(a->c)):floorf(asF(a->c))),32); if(exactI2F(a)) return a; return raw(ceil_?E_FCEIL:E_FFLOOR,a->w,0,a); }
  Expr* fpext(Expr*a){ if(isK(a)) return K(ofD((double)asF(a->c)),64); if(exactI2F(a)) return si2f(a->a,64); return raw(E_FPEXT,64,0,a); }
  Expr* fptrunc(Expr*a){ if(isK(a)) return K(ofF((float)asD(a->c)),32); if(a->op==E_FPEXT) return a->a; if(exactI2F(a)){ if(a->a->slo>=-(1<<24)&&a->a->shi<=(1<<24)) return si2f(a->a,32);} return raw(E_FPTRUNC,32,0,a); }
  static bool f2iOK(double v,unsigned w,bool sg){ if(v!=v) return false; if(sg) return v> -std::ldexp(1.0,w-1)-1 && v<std::ldexp(1.0,w-1); return v>-1 && v<std::ldexp(1.0,w); }
  Expr* f2i(Expr*a,unsigned w,bool sg){
    if(isK(a)){ double v=fv(a); if(sg) return K(f2iOK(v,w,true)?(uint64_t)(int64_t)v:(1ull<<(w-1)),w); return K(f2iOK(v,w,false)?(v<0?0:(uint64_t)v):(w<64?(uint64_t)(int64_t)(std::fabs(v)<9e18?v:0):(v<0&&v>-9.3e18?(uint64_t)(int64_t)v:1ull<<63)),w); }
    if(exactI2F(a)) return w==64?a->a:extract(a->a,0,w);
    return raw(sg?E_F2SI:E_F2UI,w,0,a); }
  bool sqrtInt(Expr*e,Expr*&x){ // e = sqrt(I2F(x)), 0<=x<2^50 (double) so sqrt is strictly monotone on x
    if(e->op==E_FSQRT&&e->w==64&&exactI2F(e->a)&&e->a->a->slo>=0&&e->a->a->shi<(1ll<<50)){ x=e->a->a; return true;} return false; }
  // comparisons of plain bit patterns (no arithmetic inside) need no floating-point theory
  Expr* nanBits(Expr*a){ uint64_t inf=a->w==64?0x7ff0000000000000ull:0x7f800000ull; return bin(E_ULT,K(inf,a->w),bin(E_AND,a,K(mask(a->w-1),a->w))); }
  Expr* keyBits(Expr*a){ unsigned w=a->w; uint64_t sb=1ull<<(w-1); return ite(bin(E_ULT,a,K(sb,w)),bin(E_OR,a,K(sb,w)),bin(E_XOR,a,K(~0ull,w))); }
  Expr* fcmpBits(Op op,Expr*a,Expr*b){ unsigned w=a->w; Expr*na=nanBits(a),*nb=nanBits(b);
    if(op==E_FUNO) return bin(E_OR,na,nb);
    Expr*ok=bin(E_AND,not1(na),not1(nb)); Expr*z=bin(E_EQ,bin(E_AND,bin(E_OR,a,b),K(mask(w-1),w)),K(0,w));
    if(op==E_FEQ) return bin(E_AND,ok,bin(E_OR,bin(E_EQ,a,b),z));
    Expr*ka=keyBits(a),*kb=keyBits(b);
    if(op==E_FLT) return bin(E_AND,ok,bin(E_AND,not1(z),bin(E_ULT,ka,kb)));
    return bin(E_AND,ok,bin(E_OR,z,bin(E_ULE,ka,kb))); }
  Expr* fcmp(Op op,Expr*a,Expr*b,int depth=0){ // E_FEQ, E_FLT, E_FLE, E_FUNO (ordered semantics)
    if(isK(a)&&isK(b)){ double x=fv(a),y=fv(b); switch(op){case E_FEQ:return B(x==y);case E_FLT:return B(x<y);case E_FLE:return B(x<=y);default:return B(x!=x||y!=y);} }
    if(op==E_FUNO){ if(nn(a)&&nn(b)) return B(false); if(isK(a)&&fv(a)!=fv(a)) return B(true); if(isK(b)&&fv(b)!=fv(b)) return B(true); if(!a->fp&&!b->fp) return fcmpBits(op,a,b); if(a->id>b->id) std::swap(a,b); return raw(E_FUNO,1,0,a,b); }
    if((isK(a)&&fv(a)!=fv(a))||(isK(b)&&fv(b)!=fv(b))) return B(false);
    if(a==b&&nn(a)) return B(op!=E_FLT);
    if(depth<6){
      if(a->op==E_ITE) return ite(a->a,fcmp(op,a->b,b,depth+1),fcmp(op,a->d,b,depth+1));
      if(b->op==E_ITE) return ite(b->a,fcmp(op,a,b->b,depth+1),fcmp(op,a,b->d,depth+1)); }
    Expr*x=toI(a),*y=toI(b);
    if(x&&y) return bin(op==E_FEQ?E_EQ:op==E_FLT?E_SLT:E_SLE,x,y);
    Expr*sa,*sb; bool qa=sqrtInt(a,sa),qb=sqrtInt(b,sb);
    if(qa&&qb) return bin(op==E_FEQ?E_EQ:op==E_FLT?E_SLT:E_SLE,sa,sb);
    if(qa&&y){ // sqrt(sa) op y
      if(y->slo>=0&&y->shi<(1ll<<25)) return bin(op==E_FEQ?E_EQ:op==E_FLT?E_SLT:E_SLE,sa,sqr(y)); }
    if(qb&&x){ if(x->slo>=0&&x->shi<(1ll<<25)) return bin(op==E_FEQ?E_EQ:op==E_FLT?E_SLT:E_SLE,sqr(x),sb); }
    if(isK(b)&&(exactI2F(a)||qa)){ double c=fv(b);
      // find smallest n with f(n) >= c  and smallest n with f(n) > c over the range of the integer
      Expr*v=qa?sa:a->a; int64_t ge=thr(c,v->slo,v->shi,qa,false),gt=thr(c,v->slo,v->shi,qa,true);
      // f(v)<c <=> v<ge ; f(v)<=c <=> v<gt
      if(op==E_FLT) return lessThan(v,ge); if(op==E_FLE) return lessThan(v,gt);
      return bin(E_AND,lessThan(v,gt),not1(lessThan(v,ge))); }
    if(isK(a)&&(exactI2F(b)||qb)){ double c=fv(a); Expr*v=qb?sb:b->a; int64_t ge=thr(c,v->slo,v->shi,qb,false),gt=thr(c,v->slo,v->shi,qb,true);
      // c<f(v) <=> v>=gt ; c<=f(v) <=> v>=ge
      if(op==E_FLT) return not1(lessThan(v,gt)); if(op==E_FLE) return not1(lessThan(v,ge));
      return bin(E_AND,lessThan(v,gt),not1(lessThan(v,ge))); }
    if(fr(a)&&fr(b)){
      if(op==E_FLT){ if(a->fhi<b->flo) return B(true); if(a->flo>=b->fhi) return B(false); }
      if(op==E_FLE){ if(a->fhi<=b->flo) return B(true); if(a->flo>b->fhi) return B(false); }
      if(op==E_FEQ){ if(a->fhi<b->flo||b->fhi<a->flo) return B(false); }
      bool za=isK(a)&&fv(a)==0,zb=isK(b)&&fv(b)==0; Expr*z;
      if(zb&&op==E_FEQ&&(z=isZero(a))) return z; if(za&&op==E_FEQ&&(z=isZero(b))) return z;
      if(za&&op==E_FLT&&b->flo>=0&&(z=isZero(b))) return not1(z); if(zb&&op==E_FLE&&a->flo>=0&&(z=isZero(a))) return z; }
    if(!a->fp&&!b->fp){ if(plain(a)&&plain(b)) return bin(op==E_FEQ?E_EQ:op==E_FLT?E_ULT:E_ULE,a,b); return fcmpBits(op,a,b); }
    if(op==E_FEQ&&a->id>b->id) std::swap(a,b);
    return raw(op,1,0,a,b); }
  static int64_t thr(double c,int64_t lo,int64_t hi,bool sq,bool strict){ // smallest n in [lo,hi+1] with f(n)>=c (or >c)
    int64_t l=lo,h=hi+1; while(l<h){ int64_t m=l+(h-l)/2; double f=sq?std::sqrt((double)m):(double)m; bool ok=strict?f>c:f>=c; if(ok) h=m; else l=m+1; } return l; }
  Expr* lessThan(Expr*v,int64_t n){ if(n<=v->slo) return B(false); if(n>v->shi) return B(true); return bin(E_SLT,v,K((uint64_t)n,64)); }
  // interval of a floating-point expression; rounding is monotone, so bounds computed in the same precision are bounds
  bool fr(Expr*e){ if(e->frk) return e->frk>0; e->frk=frC(e)&&e->flo<=e->fhi?1:-1; return e->frk>0; }
  static uint64_t infBits(unsigned w){ return w==64?0x7ff0000000000000ull:0x7f800000ull; }
  bool plain(Expr*e){ return !e->fp&&e->uhi<=infBits(e->w); } // bits of a non-negative number: ordered like integers
  bool frC(Expr*e){
    auto R=[&](double v){ return e->w==64?v:(double)(float)v; };
    if(e->w!=64&&e->w!=32) return false;
    if(isK(e)){ double v=fv(e); if(v!=v) return false; e->flo=e->fhi=v; return true; }
    if(!e->fp){ if(!plain(e)) return false; e->flo=e->w==64?asD(e->ulo):(double)asF(e->ulo); e->fhi=e->w==64?asD(e->uhi):(double)asF(e->uhi); return true; }
    switch(e->op){
      case E_SI2F: e->flo=e->w==64?(double)e->a->slo:(double)(float)e->a->slo; e->fhi=e->w==64?(double)e->a->shi:(double)(float)e->a->shi; return true;
      case E_UI2F: e->flo=e->w==64?(double)e->a->ulo:(double)(float)e->a->ulo; e->fhi=e->w==64?(double)e->a->uhi:(double)(float)e->a->uhi; return true;
      case E_ITE: if(!fr(e->b)||!fr(e->d)) return false; e->flo=std::min(e->b->flo,e->d->flo); e->fhi=std::max(e->b->fhi,e->d->fhi); return true;
      case E_FNEG: if(!fr(e->a)) return false; e->flo=-e->a->fhi; e->fhi=-e->a->flo; return true;
      case E_FABS: if(!fr(e->a)) return false; e->fhi=std::max(std::fabs(e->a->flo),std::fabs(e->a->fhi)); e->flo=e->a->flo>0?e->a->flo:e->a->fhi<0?-e->a->fhi:0; return true;
      case E_FPEXT: if(!fr(e->a)) return false; e->flo=e->a->flo; e->fhi=e->a->fhi; return true;
      case E_FPTRUNC: if(!fr(e->a)) return false; e->flo=R(e->a->flo); e->fhi=R(e->a->fhi); return true;
      case E_FSQRT: if(!fr(e->a)||e->a->flo<0) return false; e->flo=R(e->w==64?std::sqrt(e->a->flo):(double)sqrtf((float)e->a->flo)); e->fhi=e->w==64?std::sqrt(e->a->fhi):(double)sqrtf((float)e->a->fhi); return true;
      case E_FADD: case E_FSUB: { if(!fr(e->a)||!fr(e->b)) return false; double bl=e->b->flo,bh=e->b->fhi; if(e->op==E_FSUB){ double t=bl; bl=-bh; bh=-t; }
        if((std::isinf(e->a->flo)||std::isinf(e->a->fhi))&&(std::isinf(bl)||std::isinf(bh))) return false; e->flo=R(e->a->flo+bl); e->fhi=R(e->a->fhi+bh); return true; }
      case E_FMUL: { if(!fr(e->a)||!fr(e->b)) return false; double v[4]={e->a->flo*e->b->flo,e->a->flo*e->b->fhi,e->a->fhi*e->b->flo,e->a->fhi*e->b->fhi}; 
        if(std::isinf(e->a->flo)||std::isinf(e->a->fhi)||std::isinf(e->b->flo)||std::isinf(e->b->fhi)) return false;
        e->flo=R(*std::min_element(v,v+4)); e->fhi=R(*std::max_element(v,v+4)); if(e->a==e->b&&e->flo<0) e->flo=0; return true; }
      case E_FDIV: { if(!fr(e->a)||!fr(e->b)||!(e->b->flo>0||e->b->fhi<0)) return false; if(std::isinf(e->a->flo)||std::isinf(e->a->fhi)||std::isinf(e->b->flo)||std::isinf(e->b->fhi)) return false;
        double v[4]={e->a->flo/e->b->flo,e->a->flo/e->b->fhi,e->a->fhi/e->b->flo,e->a->fhi/e->b->fhi}; e->flo=R(*std::min_element(v,v+4)); e->fhi=R(*std::max_element(v,v+4)); return true; }
      default: return false; } }
  bool integral(Expr*e){ if(e->op==E_SI2F||e->op==E_UI2F) return true; if(isK(e)) return fv(e)==std::floor(fv(e)); if(e->op==E_ITE) return integral(e->b)&&integral(e->d); if(e->op==E_FNEG||e->op==E_FABS||e->op==E_FPEXT) return integral(e->a); return false; }
  Expr* isZero(Expr*e){ // condition under which a non-NaN expression is (plus or minus) zero, or null
    if(isK(e)) return B(fv(e)==0);
    switch(e->op){
      case E_SI2F: case E_UI2F: return bin(E_EQ,e->a,K(0,e->a->w));
      case E_FNEG: case E_FABS: case E_FPEXT: return isZero(e->a);
      case E_FSQRT: return isZero(e->a);
      case E_FADD: { if(!fr(e->a)||!fr(e->b)||e->a->flo<0||e->b->flo<0) return nullptr; Expr*x=isZero(e->a),*y=x?isZero(e->b):nullptr; return y?bin(E_AND,x,y):nullptr; }
      case E_FMUL: { if(!integral(e->a)||!integral(e->b)) return nullptr; Expr*x=isZero(e->a),*y=isZero(e->b); return x&&y?bin(E_OR,x,y):nullptr; }
      case E_ITE: { Expr*x=isZero(e->b),*y=x?isZero(e->d):nullptr; return y?ite(e->a,x,y):nullptr; }
      default: return nullptr; } }
  bool nn(Expr*e){ // surely not NaN
    if(fr(e)) return true;
    if(isK(e)) return fv(e)==fv(e); if(e->op==E_SI2F||e->op==E_UI2F) return true; if(e->op==E_FNEG||e->op==E_FABS) return nn(e->a);
    if(e->op==E_FSQRT) return exactI2F(e->a)&&e->a->a->slo>=0; if(e->op==E_ITE) return nn(e->b)&&nn(e->d); if(e->op==E_FPEXT) return nn(e->a);
    if(e->op==E_FMUL&&e->a==e->b) return nn(e->a); return false; }
  // ---- evaluation ----
  uint64_t evalRec(Expr*e,const std::vector<uint64_t>&m);
  uint64_t eval(Expr*e,const std::vector<uint64_t>&m){ epoch++; return evalRec(e,m); }
  // ---- rebuild under known variable values ----
  Expr* rebuild(Expr*e,Expr*a,Expr*b,Expr*d);
  Expr* simpRec(Expr*e,const uint64_t*km,const std::vector<uint64_t>&kv);
  Expr* simp(Expr*e,const uint64_t*km,const std::vector<uint64_t>&kv){ if(!((e->sup[0]&km[0])|(e->sup[1]&km[1])|(e->sup[2]&km[2])|(e->sup[3]&km[3]))) return e; smEpoch++; return simpRec(e,km,kv); }
  // ---- rewrite under the literals of the path condition (marked in pcm) ----
  Expr* look(Op op,Expr*a,Expr*b){ uint64_t h=hash(op,1,0,a,b,nullptr); auto r=tab.equal_range(h); for(auto it=r.first;it!=r.second;++it){ Expr*e=it->second; if(e->op==op&&e->w==1&&e->a==a&&e->b==b) return e; } return nullptr; }
  int known(Op op,Expr*a,Expr*b){ Expr*e=look(op,a,b); return e?e->pcm:0; }
  int litValue(Expr*e){ // 1 true, -1 false, 0 unknown
    if(e->pcm) return e->pcm; Expr*a=e->a,*b=e->b;
    switch(e->op){
      case E_EQ: if(a->w>1&&(known(E_ULT,a,b)==1||known(E_ULT,b,a)==1||known(E_SLT,a,b)==1||known(E_SLT,b,a)==1)) return -1; return 0;
      case E_ULT: case E_SLT: if(known(E_EQ,a,b)==1||known(E_EQ,b,a)==1||known(e->op,b,a)==1) return -1; return 0;
      case E_ULE: case E_SLE: if(known(E_EQ,a,b)==1||known(E_EQ,b,a)==1||known(e->op==E_ULE?E_ULT:E_SLT,a,b)==1) return 1; return 0;
      default: return 0; } }
  uint64_t pcEpoch=0; Expr* pcRec(Expr*e);
  Expr* simpPC(Expr*e,bool fresh){ if(fresh) pcEpoch++; return pcRec(e); }
  // ---- z3 ----
  Z3_context z3=nullptr; Z3_sort fs64,fs32; Z3_ast rne=nullptr;
  void initZ3(){ Z3_config c=Z3_mk_config(); z3=Z3_mk_context(c); Z3_del_config(c); fs64=Z3_mk_fpa_sort_double(z3); fs32=Z3_mk_fpa_sort_single(z3); Z3_inc_ref(z3,Z3_sort_to_ast(z3,fs64)); Z3_inc_ref(z3,Z3_sort_to_ast(z3,fs32)); }
  Z3_ast toZ(Expr*e);
  std::string show(Expr*e,int depth=6);
};
