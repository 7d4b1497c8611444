/* Ordering clusters by confidence or by size. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "types.h"
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
#ifndef LHI
#define LHI 3
#endif
#ifndef MODES
#define MODES 2
#endif
#ifdef VK
#define CONF() ((distance_t)vf_range(0,VK))
#elif defined ANY
#define CONF ANY_DIST /* identical points give clusters without a confidence: not a number */
#else
#define CONF LOW_DIST
#endif
static distance_t CF[KC+1][2]; static int LN[KC+1];
void vf_main(void){ LOG_START();
  hashtable*m=hashtable_init_size(3,LABEL_H,H_PTR,LABEL_CMP); int n=pick(1,KC);
  for(int k=0;k<n;k++){ label_t key=(label_t)(k*3+1);
#if LENGTH
    ArrayList*a=array_list_init(4,sizeof(index_t),INDEX_CMP); LN[k]=(int)vf_range(1,LHI); a->size=(size_t)LN[k]; hashtable_insert(m,&key,&a);
#else
    distance_values*d=malloc(sizeof*d); d->cr_confidence=CF[k][0]=CONF(); d->dr_confidence=CF[k][1]=CONF(); hashtable_insert(m,&key,&d);
#endif
  }
  int type=pick(0,1); /* both kinds of distance */
  ArrayList*l=NULL; int mode=pick(0,MODES),want[KC+1],nw=0; for(int k=0;k<n;k++) want[k]=0;
  if(mode){ l=array_list_init(KC+1,sizeof(label_t),LABEL_CMP); if(mode==2) for(int t=pick(0,n),i=0;i<t;i++){ int k=pick(0,n-1); vf_assume(!want[k]); want[k]=1; nw++; label_t key=(label_t)(k*3+1); array_list_append(l,&key); } }
  if(!nw){ for(int k=0;k<n;k++) want[k]=1; nw=n; }
#if LENGTH
  ArrayList*r=hdbscan_sort_by_length(m,l);
#else
  ArrayList*r=hdbscan_sort_by_similarity(m,l,type?CORE_DISTANCE_TYPE:INTRA_DISTANCE_TYPE);
#endif
  vf_assert(r!=NULL&&(l==NULL||r==l),"list"); vf_assert((int)r->size==nw,"every-cluster-once");
  int nan=0;
#if !LENGTH
  for(int k=0;k<n;k++) if(want[k]&&CF[k][type?0:1]!=CF[k][type?0:1]){ nan=1; vf_reach("nan"); }
#endif
  int prev=-1; for(int i=0;i<nw;i++){ label_t key=((label_t*)r->data)[i]; int k=(int)vf_concretize(key); vf_assert(k%3==1&&k/3<n&&want[k/3],"cluster-of-the-list"); k/=3; want[k]=0;
#if LENGTH
    if(i) vf_assert(LN[prev]<=LN[k],"ascending");
#else
    if(i&&!nan) vf_assert(CF[prev][type?0:1]<=CF[k][type?0:1],"ascending");
#endif
    prev=k; }
  vf_assert((int)hashtable_size(m)==n,"map-untouched"); vf_reach("end"); array_list_delete(r);
#if LENGTH
  hdbscan_destroy_cluster_map(m);
#else
  hdbscan_destroy_distance_map(m);
#endif
  vf_assert(vf_live()==0,"leak");
}
