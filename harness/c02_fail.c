/* One operation on an arbitrary list while an arbitrary allocation fails. */
#include "vf.h"
#include "collections/list.h"
#include "collections/set.h"
#include "hdbscan/utils.h"
#ifndef CAPM
#define CAPM 3
#endif
void vf_main(void){
  long f=vf_range(0,1);
  vf_fail_at(f);
  ArrayList*e=array_list_init(2,sizeof(int),int_compare);
  if(f<=1) vf_assert(e==0,"init-reports-failure");
  vf_fail_at(-1);
  vf_assert(vf_live()==0,"init-failure-leaks");
  size_t cap=(size_t)vf_concretize((unsigned long)vf_range(1,CAPM));
  ArrayList*l=array_list_init(cap,sizeof(int),int_compare);
  int m[CAPM+2]; size_t n=(size_t)vf_concretize((unsigned long)vf_range(0,(long)cap));
  for(size_t i=0;i<n;i++){ m[i]=(int)vf_in(32); if(i) vf_assume(m[i-1]<m[i]); array_list_append(l,&m[i]); }
  int x=(int)vf_in(32); int r=0; size_t p=n;
  for(size_t i=0;i<n;i++) vf_assume(m[i]!=x);
  vf_fail_at(0);
  int op=(int)vf_concretize((unsigned long)vf_range(0,2));
  if(op==0) r=array_list_append(l,&x);
  else if(op==1){ p=(size_t)vf_concretize((unsigned long)vf_range(0,(long)n)); r=array_list_insert_at(l,&x,p); }
  else { for(p=0;p<n&&m[p]<x;p++); r=set_insert(l,&x); }
  vf_fail_at(-1);
  size_t want=n;
  if(r==1){ for(size_t i=n;i>p;i--) m[i]=m[i-1]; m[p]=x; want=n+1; }
  else { vf_assert(n==cap,"fails-only-when-full"); vf_assert(r<=0,"failure-reported"); vf_reach("failed"); }
  vf_assert(array_list_size(l)==want,"size-after-failure");
  for(size_t i=0;i<want;i++){ int v=0; vf_assert(array_list_value_at(l,i,&v)==1,"kept"); vf_assert(v==m[i],"kept-value"); }
  if(r!=1){ vf_assert(array_list_append(l,&x)==1,"usable-afterwards"); int v; vf_assert(array_list_value_at(l,n,&v)&&v==x,"usable-value"); }
  vf_reach("end");
  array_list_delete(l);
  vf_assert(vf_live()==0,"leak");
}
