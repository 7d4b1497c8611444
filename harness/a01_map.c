/* Members of each label: exactly the positions that carry it, ascending. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "types.h"
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
void vf_main(void){ LOG_START();
  label_t l[VN]; for(int i=0;i<VN;i++)
#ifdef FREE
    l[i]=(label_t)(i<FREE?vf_range(0,LK):(i*i%7+i%2)%(LK+1));
#elif defined LK
    l[i]=(label_t)vf_range(0,LK);
#else
    l[i]=(label_t)vf_in(32);
#endif
  int b=pick(0,VN),e=pick(b,VN);
  hashtable*t=hdbscan_create_cluster_map(l,(index_t)b,(index_t)e); vf_assert(t!=NULL,"created");
  int distinct=0; for(int i=b;i<e;i++){ int f=1; for(int j=b;j<i;j++) if(l[j]==l[i]) f=0; distinct+=f; }
  vf_assert((int)hashtable_size(t)==distinct&&(int)set_size(t->keys)==distinct,"one-entry-per-label");
  for(int i=0;i<VN;i++){ ArrayList*a=NULL; label_t k=l[i]; int r=hashtable_lookup(t,&k,&a); int in=0; for(int j=b;j<e;j++) in|=l[j]==l[i];
    if(!in){ vf_assert(!r&&!a,"absent-label"); vf_reach("absent"); continue; }
    vf_assert(r&&a,"label-found"); size_t n=0; for(int j=b;j<e;j++) if(l[j]==l[i]){ vf_assert(n<a->size&&((index_t*)a->data)[n]==(index_t)j,"member"); n++; } vf_assert(a->size==n,"no-other-members"); }
  vf_reach("end"); hdbscan_destroy_cluster_map(t); vf_assert(vf_live()==0,"leak");
}
