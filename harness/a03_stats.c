/* Mean, largest value, variance, deviation, skewness, kurtosis and confidences of the cluster ratios. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "types.h"
#include <math.h>
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
#ifdef SYM
#define VAL(a,b) ((distance_t)vf_range(a,b))
#else
#define VAL(a,b) ((distance_t)pick(a,b))
#endif
static int near(distance_t a,distance_t b){ distance_t d=a-b,m=b<0?-b:b; if(d<0) d=-d; return d<=DIST_EPS*(m+1); }
static distance_t x[2][KC];
static void moments(int n,const distance_t*v,const stats_values*s){
  distance_t sum=0,mx=v[0],q=0,c=0,f=0; for(int i=0;i<n;i++){ sum+=v[i]; if(v[i]>mx) mx=v[i]; }
  vf_assert(s->max==mx,"max"); distance_t mean=sum/n; vf_assert(near(s->mean,mean),"mean"); if(n<2) return;
  for(int i=0;i<n;i++){ distance_t d=v[i]-mean; q+=d*d; c+=d*d*d; f+=d*d*d*d; }
  distance_t var=q/(n-1); vf_assert(near(s->variance,var),"variance"); vf_assert(near(s->standardDev*s->standardDev,var),"deviation"); vf_assert(s->standardDev>=0,"deviation-positive");
  if(var>0){ distance_t sd=s->standardDev; vf_assert(near(s->skewness*n*sd*sd*sd,c),"skewness"); vf_assert(near((s->kurtosis+3)*n*sd*sd*sd*sd,f),"kurtosis"); vf_reach("spread"); } }
void vf_main(void){ LOG_START();
  int n=pick(1,KC); hashtable*m=hashtable_init_size(3,LABEL_H,H_PTR,LABEL_CMP);
  distance_values*dv[KC];
  for(int k=0;k<n;k++){ label_t key=(label_t)(KC-k); distance_values*d=dv[k]=malloc(sizeof*d); d->min_cr=VAL(1,2); d->max_cr=d->min_cr*VAL(1,VK); d->min_dr=1; d->max_dr=VAL(1,VK); d->cr_confidence=d->dr_confidence=0;
    x[0][k]=d->max_cr/d->min_cr; x[1][k]=d->max_dr/d->min_dr; hashtable_insert(m,&key,&d); }
  clustering_stats s; hdbscan_calculate_stats(m,&s); vf_assert(s.count==(index_t)n,"count");
  moments(n,x[0],&s.coreDistanceValues); moments(n,x[1],&s.intraDistanceValues);
  for(int k=0;k<n;k++){ vf_assert(near(dv[k]->cr_confidence,(s.coreDistanceValues.max-x[0][k])/s.coreDistanceValues.max*100),"core-confidence"); vf_assert(near(dv[k]->dr_confidence,(s.intraDistanceValues.max-x[1][k])/s.intraDistanceValues.max*100),"distance-confidence"); vf_assert(dv[k]->cr_confidence>=0&&dv[k]->cr_confidence<100,"confidence-range"); }
  vf_reach("end"); hdbscan_destroy_distance_map(m); vf_assert(vf_live()==0,"leak");
}
