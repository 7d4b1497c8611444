/* Clearing and destroying a table of owned keys and values hands every one to its destructor exactly once. */
#include "vf.h"
#include "collections/hashtable.h"
#ifndef M
#define M 3
#endif
#ifndef BUCKETS
#define BUCKETS 2
#endif
#ifndef KRANGE
#define KRANGE 3
#endif
static void*kp[M]; static void*vp[M]; static int kc[M], vc[M], stray;
static void kd(void*p){ int f=0; for(int i=0;i<M;i++) if(kp[i]==p){ kc[i]++; f=1; } stray+=!f; free(p); }
static void vd(void*p){ int f=0; for(int i=0;i<M;i++) if(vp[i]==p){ vc[i]++; f=1; } stray+=!f; free(p); }
static size_t ph(void*key,size_t buckets){ return (size_t)(**(int**)key)%buckets; }
void vf_main(void){
  int mode=(int)vf_concretize((unsigned long)vf_range(0,3)); /* bit 0: key destructor, bit 1: value destructor */
  int viaClear=(int)vf_concretize((unsigned long)vf_range(0,1));
  hashtable*h=hashtable_init_size(BUCKETS,H_PTR,H_PTR,int_ptr_compare); h->key_hash=ph;
  int m=(int)vf_concretize((unsigned long)vf_range(0,M));
  int stored[M];
  for(int i=0;i<m;i++){ int*k=malloc(sizeof*k); *k=(int)vf_range(0,KRANGE); kp[i]=k; vp[i]=malloc(4); void*vv=vp[i]; for(int j=0;j<i;j++) vf_assume(*(int*)kp[j]!=*k); vf_assert(hashtable_insert(h,&k,&vv)==1,"insert"); }
  int removed=-1; if(m&&vf_range(0,1)){ removed=(int)vf_concretize((unsigned long)vf_range(0,m-1)); void*k=kp[removed]; void*out=0; vf_assert(hashtable_remove(h,&k,&out)==1&&out==vp[removed],"removed"); vf_reach("removed"); }
  (void)stored;
  if(viaClear){ vf_assert(hashtable_clear(h,mode&1?kd:0,mode&2?vd:0)==1,"clear"); vf_assert(hashtable_size(h)==0&&hashtable_empty(h),"cleared");
    for(int i=0;i<m;i++) if(!(mode&1)){ void*k=kp[i],*o=0; vf_assert(hashtable_lookup(h,&k,&o)==0,"cleared-lookup"); } }
  if(viaClear==0) vf_assert(hashtable_destroy(h,mode&1?kd:0,mode&2?vd:0)==1,"destroy");
  vf_assert(stray==0,"only-stored-pointers");
  for(int i=0;i<m;i++){ vf_assert(kc[i]==((mode&1)&&i!=removed),"key-destroyed-once"); vf_assert(vc[i]==((mode&2)&&i!=removed),"value-destroyed-once"); if(!((mode&1)&&i!=removed)) free(kp[i]); if(!((mode&2)&&i!=removed)) free(vp[i]); }
  if(viaClear){ /* still usable */ int*k=malloc(4); *k=1; void*v=malloc(4),*vv=v,*o=0; vf_assert(hashtable_insert(h,&k,&vv)==1,"reuse"); vf_assert(hashtable_lookup(h,&k,&o)==1&&o==v,"reuse-lookup"); vf_assert(hashtable_destroy(h,0,0)==1,"destroy-after"); free(k); free(v); }
  vf_reach("end");
  vf_assert(vf_live()==0,"leak");
}
