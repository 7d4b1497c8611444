/* Clustering and its analysis on several threads give what one thread gives; no two threads touch the same memory unordered. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "same.h"
#ifndef VC
#define VC 1
#endif
#ifndef THR
#define THR 3
#endif
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
static double x[VN*VC];
static int near(distance_t a,distance_t b){ if(a==b||(a!=a&&b!=b)) return 1; distance_t d=a-b,m=b<0?-b:b; if(d<0) d=-d; return d<=1e-9*(m+1); }
static void samestats(const stats_values*a,const stats_values*b,int n){ vf_assert(near(a->max,b->max)&&near(a->mean,b->mean),"same-mean"); if(n>1) vf_assert(near(a->variance,b->variance)&&near(a->standardDev,b->standardDev)&&near(a->skewness,b->skewness)&&near(a->kurtosis,b->kurtosis),"same-moments"); }
void vf_main(void){
  int m=pick(2,VM); for(int i=0;i<VN*VC;i++) x[i]=(double)VF_POINT(i);
  int thr=pick(2,THR),desc=pick(0,1);
  vf_threads(1); hdbscan*s=hdbscan_init(NULL,(index_t)m); vf_assert(hdbscan_run(s,x,VN,VC,1,H_DOUBLE)==HDBSCAN_SUCCESS,"run");
  vf_threads(thr); vf_desc(desc); hdbscan*t=hdbscan_init(NULL,(index_t)m); vf_assert(hdbscan_run(t,x,VN,VC,1,H_DOUBLE)==HDBSCAN_SUCCESS,"run-parallel");
  same(s,t);
#ifdef RERUN
  vf_threads(1); hdbscan_rerun(s,2); vf_threads(thr); hdbscan_rerun(t,2); same(s,t);
#endif
#ifdef ANALYSE
  label_t*L=s->clusterLabels; vf_threads(1);
  hashtable*ca=hdbscan_create_cluster_map(L,0,VN),*ma=hdbscan_get_min_max_distances(s,ca); clustering_stats sa,sb; hdbscan_calculate_stats(ma,&sa); ArrayList*la=hdbscan_sort_by_length(ca,NULL),*da=hdbscan_sort_by_similarity(ma,NULL,CORE_DISTANCE_TYPE);
  vf_threads(thr);
  hashtable*cb=hdbscan_create_cluster_map(L,0,VN),*mb=hdbscan_get_min_max_distances(t,cb); hdbscan_calculate_stats(mb,&sb); ArrayList*lb=hdbscan_sort_by_length(cb,NULL),*db=hdbscan_sort_by_similarity(mb,NULL,CORE_DISTANCE_TYPE);
  int n=(int)hashtable_size(ca); vf_assert((int)hashtable_size(cb)==n&&(int)hashtable_size(ma)==n&&(int)hashtable_size(mb)==n,"same-cluster-count");
  for(int k=0;k<VN;k++){ label_t key=L[k]; ArrayList*a=NULL,*b=NULL; hashtable_lookup(ca,&key,&a); hashtable_lookup(cb,&key,&b); vf_assert(a&&b&&a->size==b->size,"same-members"); for(size_t i=0;i<a->size;i++) vf_assert(((index_t*)a->data)[i]==((index_t*)b->data)[i],"same-member");
    distance_values*p=NULL,*q=NULL; hashtable_lookup(ma,&key,&p); hashtable_lookup(mb,&key,&q); vf_assert(p&&q&&p->min_cr==q->min_cr&&p->max_cr==q->max_cr&&p->min_dr==q->min_dr&&p->max_dr==q->max_dr,"same-extremes");
    vf_assert(near(p->cr_confidence,q->cr_confidence)&&near(p->dr_confidence,q->dr_confidence),"same-confidence"); }
  samestats(&sa.coreDistanceValues,&sb.coreDistanceValues,n); samestats(&sa.intraDistanceValues,&sb.intraDistanceValues,n);
  vf_assert(la->size==lb->size&&da->size==db->size,"same-length"); if(n>1) vf_reach("several");
  for(int i=0;i<n;i++) vf_assert(((label_t*)la->data)[i]==((label_t*)lb->data)[i]&&((label_t*)da->data)[i]==((label_t*)db->data)[i],"same-order");
  int core=pick(0,1)?CORE_DISTANCE_TYPE:INTRA_DISTANCE_TYPE; for(int i=0,j=n-1;i<j;i++,j--) for(int k=0;k<2;k++){ label_t*q=k?da->data:la->data,*r=k?db->data:lb->data,h=q[i]; q[i]=q[j]; q[j]=h; h=r[i]; r[i]=r[j]; r[j]=h; }
  hdbscan_sort_by_length(cb,lb); hdbscan_sort_by_similarity(mb,db,core); vf_threads(1); hdbscan_sort_by_length(ca,la); hdbscan_sort_by_similarity(ma,da,core);
  for(int i=0;i<n;i++) vf_assert(((label_t*)la->data)[i]==((label_t*)lb->data)[i]&&((label_t*)da->data)[i]==((label_t*)db->data)[i],"same-order-of-given");
  array_list_delete(la); array_list_delete(lb); array_list_delete(da); array_list_delete(db);
  hdbscan_destroy_distance_map(ma); hdbscan_destroy_distance_map(mb); hdbscan_destroy_cluster_map(ca); hdbscan_destroy_cluster_map(cb);
#endif
  for(int p=0;p<VN;p++) vf_out(t->clusterLabels[p]);
  vf_reach("end"); hdbscan_destroy(s); hdbscan_destroy(t); vf_assert(vf_live()==0,"leak");
}
