/* Comparators are total orders; equal keys hash alike, into range. */
#include "vf.h"
#include "hdbscan/utils.h"
#ifndef T
#define T int
#define CMP int_compare
#define PCMP int_ptr_compare
#define HASH int_hash
#endif
static T sym(void){ union { unsigned long u; T k; } x; x.u=vf_in(8*sizeof(T)); vf_assume(x.k==x.k); return x.k; }
static int sg(int x){ return (x>0)-(x<0); }
void vf_main(void){
  T a=sym(), b=sym(), *pa=&a, *pb=&b;
  int ab=CMP(&a,&b), ba=CMP(&b,&a);
  vf_assert(sg(ab)==(a>b)-(a<b),"order"); vf_assert(sg(ab)==-sg(ba),"antisymmetric");
  vf_assert(sg(PCMP(&pa,&pb))==sg(ab),"pointer-order");
#ifdef HASH
  size_t m=(size_t)vf_concretize((unsigned long)vf_range(1,BM));
  size_t ha=HASH(&a,m); vf_assert(ha<m,"hash-in-range"); if(a==b) vf_assert(HASH(&b,m)==ha,"hash-of-equal"); vf_out(ha);
#endif
  vf_assert(get_htype_size(HT)==sizeof(T),"type-size");
  vf_reach("end");
}
