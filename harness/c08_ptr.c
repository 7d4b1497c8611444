#include "vf.h"
#include "hdbscan/utils.h"
void vf_main(void){ char x[8]; long i=vf_range(0,7),j=vf_range(0,7); i=(long)vf_concretize((unsigned long)i); j=(long)vf_concretize((unsigned long)j); void*a=x+i,*b=x+j; int r=ptr_compare(&a,&b);
  vf_assert((r>0)==(i>j)&&(r<0)==(i<j),"pointer-order"); vf_assert(get_htype_size(H_PTR)==sizeof(void*)&&get_htype_size(H_STRING)==sizeof(void*),"type-size"); 
  char s[5],t[5]; for(int k=0;k<4;k++) s[k]=(char)vf_in(8); s[4]=0; memcpy(t,s,5); size_t m=(size_t)vf_concretize((unsigned long)vf_range(1,5)); size_t h=str_hash(s,m); vf_assert(h<m,"string-hash-in-range"); vf_assert(str_hash(t,m)==h,"string-hash-of-equal"); vf_reach("end"); }
