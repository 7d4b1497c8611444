/* Histories of hash table operations against a plain association list. */
#include "vf.h"
#include "collections/hashtable.h"
#ifndef OPS
#define OPS 3
#endif
#ifndef PRE
#define PRE 0
#endif
#ifndef BUCKETS
#define BUCKETS 2
#endif
#ifndef KT
#define KT int
#define KH H_INT
#define KCMP int_compare
#endif
#ifndef DT
#define DT int
#define DH H_INT
#endif
static KT keys[OPS]; static DT vals[OPS]; static int n;
static KT symKey(void){
#ifdef KRANGE
  return (KT)vf_range(-KRANGE,KRANGE);
#else
  union { unsigned long u; KT k; } x; x.u=vf_in(8*sizeof(KT)); vf_assume(x.k==x.k); return x.k;
#endif
}
static DT symVal(void){ union { unsigned long u; DT d; } x; x.u=vf_in(8*sizeof(DT)); return x.d; }
#define SAME(x,y) (memcmp(&(x),&(y),sizeof(DT))==0)
static void check(hashtable*h){
  vf_assert(hashtable_size(h)==(size_t)n,"size"); vf_assert((hashtable_empty(h)!=0)==(n==0),"empty");
  vf_assert(set_size(h->keys)==(size_t)n,"key-set-size");
  for(int i=0;i<n;i++){ KT k=keys[i]; DT v; memset(&v,0,sizeof v); vf_assert(hashtable_lookup(h,&k,&v)==1,"lookup-present"); vf_assert(SAME(v,vals[i]),"lookup-value"); vf_assert(set_find(h->keys,&k)>=0,"key-set-has-key"); }
}
void vf_main(void){
  hashtable*h=hashtable_init_size(BUCKETS,KH,DH,KCMP);
  for(int s=0;s<OPS;s++){
#ifdef KNOWN
    KT k=s<PRE?(KT)((s*5)%PRE*2):symKey(), kk=k;
#else
    KT k=symKey(), kk=k;
#endif
    int at=-1; for(int i=0;i<n;i++) if(keys[i]==k){ at=i; break; }
    int op=s<PRE?0:(int)vf_range(0,3);
#ifdef DISTINCT
    if(s<PRE) vf_assume(at<0);
#endif
    if(op==0){ DT v=symVal(), vv=v; int r=hashtable_insert(h,&kk,&vv);
      if(at<0){ vf_assert(r==1,"insert-new"); vf_assert(SAME(vv,v),"insert-keeps-value"); keys[n]=k; vals[n++]=v; }
      else { vf_assert(r==-1,"insert-existing"); vf_assert(SAME(vv,vals[at]),"insert-returns-old"); vals[at]=v; vf_reach("replaced"); } }
    else if(op==1){ DT v=symVal(), vv=v; int r=hashtable_lookup(h,&kk,&vv);
      if(at<0){ vf_assert(r==0,"lookup-absent"); vf_assert(SAME(vv,v),"lookup-absent-untouched"); } else { vf_assert(r==1,"lookup-found"); vf_assert(SAME(vv,vals[at]),"lookup-found-value"); } }
    else if(op==3){ vf_assert(hashtable_clear(h,0,0)==1,"clear"); n=0; vf_reach("emptied"); }
    else { DT vv=symVal(); int r=hashtable_remove(h,&kk,&vv);
      if(at<0) vf_assert(r==0,"remove-absent"); else { vf_assert(r==1,"remove-present"); vf_assert(SAME(vv,vals[at]),"removed-value"); for(int i=at;i+1<n;i++){ keys[i]=keys[i+1]; vals[i]=vals[i+1]; } n--; vf_reach("removed"); } }
    check(h);
  }
  vf_reach("end");
  if(n>=2&&h->collisions>0) vf_reach("collided");
  vf_assert(hashtable_destroy(h,0,0)==1,"destroy"); vf_assert(vf_live()==0,"leak");
}
