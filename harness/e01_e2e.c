/* The whole pipeline on an arbitrary table of distances: hierarchy, flat labels and scores against the definition. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "types.h"
#ifndef VM
#define VM 2
#endif
#define NT (VN*(VN-1)/2)
#ifdef FREE
#define LINEP(a) VF_POINT(a)
#else
#define LINEP(a) vf_range(0,a?LINE:LINE/2)
#endif
static distance_t D[VN][VN], C[VN], M[VN][VN];
static distance_t sel(int c,distance_t a,distance_t b){ unsigned long m=0ul-(unsigned long)(c!=0); union{unsigned long u;distance_t d;} x,y,z; x.d=a; y.d=b; z.u=(x.u&m)|(y.u&~m); return z.d; }
static distance_t mx(distance_t a,distance_t b){ return sel(a>b,a,b); }
static distance_t mn(distance_t a,distance_t b){ return sel(a<b,a,b); }
void vf_main(void){ LOG_START();
  hdbscan* sc=hdbscan_init(NULL, VM);
  distance_t*t=malloc(sizeof(distance_t)*NT); int i=0;
#ifdef LINE   /* points on a line */
  long X[VN]; for(int a=0;a<VN;a++) X[a]=LINEP(a);
#endif
  for(int a=0;a<VN;a++) for(int b=a+1;b<VN;b++){
#ifdef LINE
    long d_=X[a]-X[b], s_=d_>>63; distance_t v=(distance_t)((d_^s_)-s_);
#elif defined VK
    distance_t v=(distance_t)vf_range(0,VK);
#else
    distance_t v=LOW_DIST();
#endif
    t[i++]=v; D[a][b]=D[b][a]=v; }
  sc->distanceFunction.distances=t; sc->distanceFunction.coreDistances=malloc(sizeof(distance_t)*VN);
  sc->distanceFunction.rows=VN; sc->numPoints=VN;
  sc->clusters=ptr_array_list_init(4,cluster_compare); sc->clusterStabilities=hashtable_init(4,LABEL_H,H_PTR,LABEL_CMP);
  vf_assert(hdbscan_rerun(sc,VM)==HDBSCAN_SUCCESS,"ok");
  /* core distance: the smallest value with at least VM-1 other points within it */
  for(int p=0;p<VN;p++){ distance_t best=D_MAX; for(int q=0;q<VN;q++) if(q!=p){ int n=0; for(int r=0;r<VN;r++) if(r!=p) n+=D[p][r]<=D[p][q]; best=sel((n>=VM-1)&(D[p][q]<best),D[p][q],best); } C[p]=VM==1?0:best; }
  /* minimax mutual reachability */
  for(int a=0;a<VN;a++) for(int b=0;b<VN;b++) M[a][b]=a==b?C[a]:mx(mx(D[a][b],C[a]),C[b]);
  for(int k=0;k<VN;k++) for(int a=0;a<VN;a++) for(int b=0;b<a;b++) if(a!=k&&b!=k) M[a][b]=M[b][a]=mn(M[a][b],mx(M[a][k],M[k][b]));
  long n=(long)hashtable_size(sc->hierarchy)-1; distance_t prev=D_MAX;
  for(long k=1;k<=n;k++){ hierarchy_entry*e=NULL; vf_assert(hashtable_lookup(sc->hierarchy,&k,&e)!=0&&e,"levels-numbered"); distance_t w=e->edgeWeight;
    vf_assert(w<prev,"weights-decrease");
    int size[VN]; for(int p=0;p<VN;p++){ size[p]=0; for(int q=0;q<VN;q++) size[p]+=(M[p][q]<=w)&(M[p][p]<=w)&(M[q][q]<=w); }
    for(int p=0;p<VN;p++){ int in=(M[p][p]<=w)&(size[p]>=VM); vf_assert((e->labels[p]!=0)==in,"noise-iff-not-dense");
      for(int q=0;q<p;q++) vf_assert(((e->labels[p]==e->labels[q])&(e->labels[p]!=0))==((M[p][q]<=w)&in),"same-cluster-iff-density-connected"); }
    /* nothing happens between two recorded levels */
    for(int p=0;p<VN;p++) for(int q=0;q<=p;q++) vf_assert(!((M[p][q]>w)&(M[p][q]<prev)),"no-level-skipped");
    prev=w; }
  /* the flat labels name clusters whose members at birth carry them */
  for(int p=0;p<VN;p++){ label_t l=sc->clusterLabels[p]; vf_assert(l<sc->clusters->size&&l!=1,"label-known");
    if(l){ cluster*c=((cluster**)sc->clusters->data)[l]; distance_t w=-1; long k=c->offset+1; hierarchy_entry*e=NULL; hashtable_lookup(sc->hierarchy,&k,&e); vf_assert(e&&e->labels[p]==l,"member-at-birth"); (void)w;
      for(int q=0;q<VN;q++) vf_assert((sc->clusterLabels[q]==l)==(M[p][q]<=e->edgeWeight),"flat-cluster-is-a-component");
      vf_reach("clustered"); } }
  distance_t ps=-1; for(int r=0;r<VN;r++){ outlier_score*o=sc->outlierScores+r; vf_assert(o->id<VN&&o->score>=0&&o->score<=1&&o->score>=ps,"scores"); ps=o->score; vf_assert(o->coreDistance==C[vf_concretize(o->id)],"score-core-distance"); }
  vf_reach("end");
  hdbscan_destroy(sc); vf_assert(vf_live()==0,"leak");
}
