/* The parts of the C++ library that are not in headers, for the symbolic executor. */
typedef struct N { int color; struct N *parent,*left,*right; } N;
N* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(N*x){ if(x->right){ x=x->right; while(x->left) x=x->left; return x; } N*y=x->parent; while(x==y->right){ x=y; y=y->parent; } return x->right!=y?y:x; }
const N* _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const N*x){ return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base((N*)x); }
N* _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(N*x){ if(!x->color&&x->parent->parent==x) return x->right; if(x->left){ x=x->left; while(x->right) x=x->right; return x; } N*y=x->parent; while(x==y->left){ x=y; y=y->parent; } return y; }
const N* _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const N*x){ return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base((N*)x); }
/* unbalanced: every node but the header is black, so that the header alone is red */
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(_Bool left,N*x,N*p,N*h){ x->parent=p; x->left=x->right=0; x->color=1;
  if(left){ p->left=x; if(p==h){ h->parent=x; h->right=x; } else if(p==h->left) h->left=x; } else { p->right=x; if(p==h->right) h->right=x; } }
void abort(void);
void _ZSt17__throw_bad_allocv(void){ abort(); }
void _ZSt28__throw_bad_array_new_lengthv(void){ abort(); }
void _ZSt20__throw_length_errorPKc(const char*s){ (void)s; abort(); }
void _ZSt20__throw_out_of_rangePKc(const char*s){ (void)s; abort(); }
void _ZSt24__throw_out_of_range_fmtPKcz(const char*s,...){ (void)s; abort(); }
void _ZSt19__throw_logic_errorPKc(const char*s){ (void)s; abort(); }
void _ZSt25__throw_bad_function_callv(void){ abort(); }
void _ZSt24__throw_invalid_argumentPKc(const char*s){ (void)s; abort(); }
N* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(N*z,N*h){ N*y=z,*x;
  if(!y->left) x=y->right; else if(!y->right) x=y->left; else { y=y->right; while(y->left) y=y->left; x=y->right; }
  if(y!=z){ z->left->parent=y; y->left=z->left; if(y!=z->right){ if(x) x->parent=y->parent; y->parent->left=x; y->right=z->right; z->right->parent=y; }
    if(h->parent==z) h->parent=y; else if(z->parent->left==z) z->parent->left=y; else z->parent->right=y; y->parent=z->parent; return z; }
  if(x) x->parent=z->parent; if(h->parent==z) h->parent=x; else if(z->parent->left==z) z->parent->left=x; else z->parent->right=x;
  if(h->left==z){ if(!z->right) h->left=z->parent; else { while(x->left) x=x->left; h->left=x; } }
  else if(h->right==z){ if(!z->left) h->right=z->parent; else { while(x->right) x=x->right; h->right=x; } }
  return z; }
typedef struct L { struct L *next,*prev; } L;
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(L*t,L*p){ t->next=p; t->prev=p->prev; p->prev->next=t; p->prev=t; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv(L*t){ t->prev->next=t->next; t->next->prev=t->prev; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(L*t,L*f,L*l){ if(t==l) return; l->prev->next=t; f->prev->next=l; t->prev->next=f; L*p=t->prev; t->prev=l->prev; l->prev=f->prev; f->prev=p; }
typedef struct { float load; unsigned long next; } RP; typedef struct { _Bool b; unsigned long n; } BN;
unsigned long _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(RP*r,unsigned long n){ static const unsigned char s[]={2,3,5,7,11,13,17,23,29,37,53,97,193}; unsigned long p=193; for(int i=12;i>=0;i--) if(s[i]>=n) p=s[i]; if(n>193) p=n|1; r->next=p; return p; }
BN _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(RP*r,unsigned long b,unsigned long e,unsigned long i){ BN o={0,0}; if(e+i>r->next){ o.b=1; unsigned long n=b*2>e+i?b*2:e+i; o.n=_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(r,n); } return o; }
unsigned long _ZSt11_Hash_bytesPKvmm(const void*p,unsigned long n,unsigned long s){ const unsigned char*c=p; unsigned long h=s; while(n--) h=h*31+*c++; return h; }
/* iostreams swallow what they are given */
void _ZNSt8ios_base4InitC1Ev(void*t){ (void)t; }
void _ZNSt8ios_base4InitD1Ev(void*t){ (void)t; }
#define OUT(n,T) void* n(void*o,T v){ (void)v; return o; }
OUT(_ZNSolsEi,int) OUT(_ZNSolsEj,unsigned) OUT(_ZNSolsEl,long) OUT(_ZNSolsEm,unsigned long) OUT(_ZNSolsEd,double) OUT(_ZNSolsEf,float) OUT(_ZNSolsEb,_Bool) OUT(_ZNSolsEPKv,const void*) OUT(_ZNSolsEPFRSoS_E,void*)
OUT(_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc,const char*) OUT(_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c,char) OUT(_ZNSo9_M_insertIdEERSoT_,double) OUT(_ZNSo9_M_insertImEERSoT_,unsigned long) OUT(_ZNSo9_M_insertIlEERSoT_,long)
void* _ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(void*o){ return o; }
void* _ZNSo5flushEv(void*o){ return o; }
void* _ZNSo3putEc(void*o,char c){ (void)c; return o; }
void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void*o,const char*s,long n){ (void)s;(void)n; return o; }
