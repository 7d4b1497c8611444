/* Histories of list operations against a plain array; every operation and operand is symbolic. */
#include "vf.h"
#include "collections/list.h"
#include "hdbscan/utils.h"
#ifndef OPS
#define OPS 3
#endif
#ifndef ELT
#define ELT int
#define ECMP int_compare
#endif
#ifndef CAP0
#define CAP0 2
#endif
#ifndef PRE
#define PRE 2
#endif
#ifndef PRE0
#define PRE0 0
#endif
#define MX (OPS+PRE+1)
static ELT model[MX]; static size_t n;
static ELT sym(void){ return (ELT)vf_in(8*sizeof(ELT)); }
static void check(ArrayList*l){
  vf_assert(array_list_size(l)==n,"size");
  vf_assert(l->max_size>=l->size,"capacity-covers-size");
  vf_assert(vf_valid(l->data,l->max_size*sizeof(ELT)),"capacity-is-allocated");
  vf_assert((array_list_empty(l)!=0)==(n==0),"empty");
  for(size_t i=0;i<n;i++){ ELT v=0; vf_assert(array_list_value_at(l,i,&v)==1,"value-at-found"); vf_assert(v==model[i],"value"); }
  ELT v=77; vf_assert(array_list_value_at(l,n,&v)==0,"value-at-end-rejected"); vf_assert(v==77,"value-at-end-untouched");
}
void vf_main(void){
  ArrayList*l=array_list_init((size_t)vf_concretize((unsigned long)vf_range(1,CAP0)),sizeof(ELT),ECMP);
  n=0;
  unsigned pre=(unsigned)vf_concretize((unsigned long)vf_range(PRE0,PRE));
  for(unsigned i=0;i<pre;i++){
#ifdef KNOWN
    ELT x=(ELT)(i*7%PRE);
#else
    ELT x=sym();
#endif
    vf_assert(array_list_append(l,&x)==1,"append-ok"); model[n++]=x; }
  check(l);
  for(int k=0;k<OPS;k++){
    switch(vf_range(0,7)){
    case 0: { ELT x=sym(); vf_assert(array_list_append(l,&x)==1,"append-ok"); model[n++]=x; break; }
    case 1: { ELT x=sym(); size_t p=(size_t)vf_concretize((unsigned long)vf_range(0,(long)n+1)); int r=array_list_insert_at(l,&x,p); if(p>n){ vf_assert(r==0,"insert-past-end-rejected"); break; } vf_assert(r==1,"insert-ok");
              for(size_t i=n;i>p;i--) model[i]=model[i-1]; model[p]=x; n++; break; }
    case 2: { size_t p=(size_t)vf_concretize((unsigned long)vf_range(0,(long)n+1)); ELT x=0; int r=array_list_remove_at(l,p,&x);
              if(p>=n) vf_assert(r==0,"remove-past-end-rejected"); else { vf_assert(r==1,"remove-ok"); vf_assert(x==model[p],"removed-value"); for(size_t i=p;i+1<n;i++) model[i]=model[i+1]; n--; } break; }
    case 3: { size_t p=(size_t)vf_concretize((unsigned long)vf_range(0,(long)n+1)); ELT x=sym(); int r=array_list_replace_at(l,&x,p);
              if(p>=n) vf_assert(r==0,"replace-past-end-rejected"); else { vf_assert(r==1,"replace-ok"); model[p]=x; } break; }
    case 4: { ELT x=0; int r=array_list_pop(l,&x); if(!n) vf_assert(r==-1,"pop-empty"); else { vf_assert(r==1,"pop-ok"); vf_assert(x==model[n-1],"popped-value"); n--; } break; }
    case 5: { array_list_clear(l,(int)vf_concretize((unsigned long)vf_range(0,1))); n=0; break; }
    case 6: { ELT x=sym(), q=x; long at=-1; for(size_t i=n;i-->0;) if(model[i]==x) at=(long)i;
              vf_assert(array_list_find(l,&q,0)==at,"find-first"); vf_assert(q==x,"find-keeps-argument"); break; }
    case 7: { ELT x=sym(), q=x; long at=-1; for(size_t i=n;i-->0;) if(model[i]==x) at=(long)i;
              int r=array_list_remove(l,&q); if(at<0) vf_assert(r==-1,"remove-absent"); else { vf_assert(r==1,"remove-present"); vf_assert(q==x,"remove-returns-element"); at=(long)vf_concretize((unsigned long)at); for(size_t i=(size_t)at;i+1<n;i++) model[i]=model[i+1]; n--; } break; }
    }
    check(l);
  }
  for(size_t i=0;i<n;i++) vf_out((unsigned long)model[i]);
  vf_reach("end");
  vf_assert(array_list_delete(l)==0,"delete-null");
  vf_assert(vf_live()==0,"leak");
}
