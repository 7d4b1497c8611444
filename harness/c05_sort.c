/* Sorting and searching an arbitrary list. */
#include "vf.h"
#include "collections/list.h"
#include "collections/set.h"
#include "hdbscan/utils.h"
#ifndef LEN
#define LEN 4
#endif
#ifndef ELT
#define ELT int
#define ECMP int_compare
#endif
void vf_main(void){
  ArrayList*l=array_list_init(LEN,sizeof(ELT),ECMP); ELT a[LEN]; size_t n=(size_t)vf_concretize((unsigned long)vf_range(0,LEN));
  for(size_t i=0;i<n;i++){ union { unsigned long u; ELT e; } x; 
#ifdef VK
    x.e=(ELT)vf_range(0,VK);
#else
    x.u=vf_in(8*sizeof(ELT));
#endif
    a[i]=x.e;
#ifdef FLT
    vf_assume(a[i]==a[i]);
#endif
    array_list_append(l,&a[i]); }
  union { unsigned long u; ELT e; } q; q.u=vf_in(8*sizeof(ELT));
#ifdef FLT
  vf_assume(q.e==q.e);
#endif
  ELT qq=q.e; int have=0; for(size_t i=0;i<n;i++) have|=(a[i]==qq);
  long u=array_list_find(l,&qq,0); vf_assert((u>=0)==have,"unordered-find-decides");
  if(u>=0){ vf_assert((size_t)u<n,"unordered-find-in-range"); for(size_t i=0;i<n;i++) vf_assert(i>(size_t)u||(a[i]==qq)==(i==(size_t)u),"first-match"); vf_reach("found"); }
  array_list_sort(l);
  vf_assert(array_list_size(l)==n,"length-kept");
  ELT b[LEN];
  for(size_t i=0;i<n;i++){ array_list_value_at(l,i,&b[i]); if(i) vf_assert(b[i-1]<=b[i],"ascending"); }
  for(size_t i=0;i<n;i++){ int ca=0,cb=0; for(size_t j=0;j<n;j++){ ca+=a[j]==a[i]; cb+=b[j]==a[i]; } vf_assert(ca==cb,"permutation"); }
  long f=array_list_find(l,&qq,1);
  vf_assert((f>=0)==have,"sorted-find-decides");
  if(f>=0){ vf_assert((size_t)f<n,"sorted-find-in-range"); ELT v; array_list_value_at(l,(size_t)f,&v); vf_assert(v==qq,"sorted-find-value"); }
  long g=array_list_find(l,&qq,0);
  vf_assert((g>=0)==have,"linear-find-decides"); if(g>=0){ vf_assert((size_t)g<n,"linear-find-in-range"); for(size_t i=0;i<n;i++) vf_assert(i>(size_t)g||(b[i]==qq)==(i==(size_t)g),"first-match"); }
  vf_reach("end");
  array_list_delete(l); vf_assert(vf_live()==0,"leak");
}
