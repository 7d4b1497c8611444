/* Smallest and largest core distance and pairwise distance within each cluster. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "types.h"
#define NT (VN*(VN-1)/2)
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
static distance_t val(void){
#ifdef VK
  return (distance_t)vf_range(0,VK);
#else
  distance_t d=LOW_DIST(); vf_assume(d==0||d>=D_MIN); return d; /* a square root is never subnormal */
#endif
}
#ifdef ONE   /* one distance and one core distance are symbolic, the others known */
#define VAL(i,k) ((i)==f?val():(distance_t)(k))
#define LAB(a) (label_t)(a*a%5%(LK+1))
#else
#define VAL(i,k) val()
#define LAB(a) (label_t)pick(0,LK)
#endif
void vf_main(void){ int f=0;
#ifdef ONE
  f=pick(0,NT-1);
#endif
  LOG_START();
  hdbscan*s=hdbscan_init(NULL,2); s->numPoints=s->distanceFunction.rows=VN; distance_t D[VN][VN];
  s->distanceFunction.distances=malloc(NT*sizeof(distance_t)+1); s->distanceFunction.coreDistances=malloc(VN*sizeof(distance_t));
  int i=0; for(int a=0;a<VN;a++) for(int b=a+1;b<VN;b++){ distance_t v=VAL(i,a*b%5); D[a][b]=D[b][a]=v; s->distanceFunction.distances[i++]=v; }
  distance_t C[VN]; for(int a=0;a<VN;a++) C[a]=s->distanceFunction.coreDistances[a]=VAL(a==f%VN?f:-1,a*a%7);
  label_t l[VN]; for(int a=0;a<VN;a++) l[a]=LAB(a);
  hashtable*t=hdbscan_create_cluster_map(l,0,VN),*m=hdbscan_get_min_max_distances(s,t);
  vf_assert(hashtable_size(m)==hashtable_size(t),"one-entry-per-cluster");
  for(int k=0;k<=LK;k++){ label_t key=(label_t)k; distance_values*d=NULL; hashtable_lookup(m,&key,&d); int n=0; for(int a=0;a<VN;a++) n+=l[a]==key; vf_assert((d!=NULL)==(n>0),"entry-iff-cluster"); if(!d) continue;
    int zero=1,some=0,pairs=0,atc=0,atC=0,atd=0,atD=0;
    for(int a=0;a<VN;a++) if(l[a]==key){ vf_assert(C[a]<=d->max_cr,"max-core"); atC|=C[a]==d->max_cr; if(C[a]!=0){ zero=0; vf_assert(d->min_cr<=C[a],"min-core"); } atc|=d->min_cr==C[a];
      for(int b=0;b<a;b++) if(l[b]==key){ pairs=1; vf_assert(D[a][b]<=d->max_dr||(D[a][b]==0),"max-distance"); atD|=D[a][b]==d->max_dr; if(D[a][b]!=0){ some=1; vf_assert(d->min_dr<=D[a][b],"min-distance"); atd|=d->min_dr==D[a][b]; } } }
    vf_assert(atc&&atC,"core-values-occur"); vf_assert(zero||d->min_cr!=0,"smallest-nonzero-core");
    if(some){ vf_assert(atd&&atD,"distances-occur"); vf_reach("pair"); }
    vf_assert(d->cr_confidence==0&&d->dr_confidence==0,"no-confidence-yet"); }
  vf_reach("end"); hdbscan_destroy_distance_map(m); hdbscan_destroy_cluster_map(t); hdbscan_destroy(s); vf_assert(vf_live()==0,"leak");
}
