/* Histories of set operations; elements symbolic. */
#include "vf.h"
#include "collections/set.h"
#include "hdbscan/utils.h"
#ifndef OPS
#define OPS 4
#endif
/* BIG even numbers are there from the start */
#ifndef BIG
#define BIG 0
#endif
#define CAP (OPS+BIG+1)
#ifndef ELT
#define ELT int
#define ECMP int_compare
#endif
void vf_main(void){
  set_t*s=set_init(sizeof(ELT),ECMP); int k;
  size_t n=0;
  /* model: sorted array of the current members */
  ELT m[CAP];
  for(k=0;k<BIG;k++){ ELT x=(ELT)(2*((k*7)%BIG)); vf_assert(set_insert(s,&x)==1,"insert-ok"); m[k]=(ELT)(2*k); n++; }
  for(k=0;k<OPS;k++){
    ELT x=(ELT)vf_in(8*sizeof(ELT)); size_t pos=0; int has=0;
    while(pos<n&&m[pos]<x) pos++;
    has=pos<n&&m[pos]==x;
    long op=vf_range(0,2);
    if(op==0){ ELT y=x; int r=set_insert(s,&y);
      if(has) vf_assert(r==0,"duplicate-rejected"); else { vf_assert(r==1,"insert-ok"); for(size_t i=n;i>pos;i--) m[i]=m[i-1]; m[pos]=x; n++; } vf_assert(y==x,"argument-kept"); }
    else if(op==1){ ELT y=x; int r=set_remove(s,&y);
      if(!has) vf_assert(r==-1,"remove-absent"); else { vf_assert(r==1,"remove-ok"); vf_assert(y==x,"removed"); for(size_t i=pos;i+1<n;i++) m[i]=m[i+1]; n--; } }
    else { size_t p=(size_t)vf_concretize((unsigned long)vf_range(0,(long)n)); ELT y=x; int r=set_remove_at(s,p,&y);
      if(p>=n) vf_assert(r==0,"remove-at-end"); else { vf_assert(r==1&&y==m[p],"removed-at"); for(size_t i=p;i+1<n;i++) m[i]=m[i+1]; n--; } }
    vf_assert(set_size(s)==n,"size"); vf_assert((set_empty(s)!=0)==(n==0),"empty");
    for(size_t i=0;i<n;i++){ ELT v=0; vf_assert(set_value_at(s,i,&v)==1,"at"); vf_assert(v==m[i],"sorted-members"); vf_assert(set_find(s,&v)==(long)i,"finds-member"); }
    ELT q=(ELT)vf_in(8*sizeof(ELT)); long at=-1; for(size_t i=0;i<n;i++) if(m[i]==q) at=(long)i;
    if(k==OPS-1) vf_assert(set_find(s,&q)==at,"find");
  }
  set_sort(s); for(size_t i=0;i<n;i++){ ELT v=0; vf_assert(set_value_at(s,i,&v)==1&&v==m[i],"sorting-changes-nothing"); }
  for(size_t i=0;i<n;i++) vf_out((unsigned long)m[i]);
  vf_reach("end");
  set_clear(s); vf_assert(set_size(s)==0&&set_empty(s),"clear");
  for(k=0;k<3;k++){ ELT x=(ELT)(10-k); vf_assert(set_insert(s,&x)==1,"reuse"); }
  for(k=0;k<3;k++){ ELT v=0; vf_assert(set_value_at(s,(size_t)k,&v)==1&&v==(ELT)(8+k),"reuse-value"); }
  vf_assert(set_delete(s)==0,"delete-null"); vf_assert(vf_live()==0,"leak");
}
