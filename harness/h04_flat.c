/* Flat labels and outlier scores of an arbitrary tree. STAB: stabilities replaced by arbitrary ones before the selection. */
#include "tree.h"
#include <math.h>
#ifndef SELF
#define SELF 0
#endif
static distance_t weight(void){
#ifdef EXACT
  int k=pick(0,EXACT); return k?(distance_t)(1<<(k-1)):0;
#else
  return LOW_DIST();
#endif
}
static distance_t core[VN];
void vf_main(void){ LOG_START();
  minPts=pick(MINLO,MINHI);
#ifdef PATH /* the tree is a path, its edges in any order */
  int used[VN]={0}; for(int t=0;t<VN-1;t++){ int a=PEDGE(t); vf_assume(!used[a]); used[a]=1; addEdge(NAME(PARENT(a+1)),NAME(a+1),PWEIGHT(t)); CANON(a) }
#else
  int c[VN],t=0,self[VN]; for(int p=0;p<VN;p++){ c[p]=p; self[p]=!SELF; }
  while(t<VN-1){ index_t a=(index_t)pick(0,VN-1),b=(index_t)pick((int)a,VN-1);
    if(a==b){ vf_assume(!self[a]); self[a]=1; addEdge(a,a,weight()); continue; }
    vf_assume(self[a]&&self[b]&&c[a]!=c[b]); int o=c[b],n=c[a]; for(int p=0;p<VN;p++) if(c[p]==o) c[p]=n; t++; addEdge(a,b,weight()); }
#endif
  components(); build();
  int compact=COMPACT;
  hdbscan_compute_hierarchy_and_cluster_tree(sc,compact,nlvl,lastc);
  int n=(int)sc->clusters->size-1; distance_t stab[VN+2],prop[VN+2]={0}; int kids[VN+2]={0}; unsigned long sel[VN+2]={0}; distance_t low[VN+2];
  for(int i=1;i<=n;i++){
#ifdef STAB
    cl((label_t)i)->stability=(distance_t)vf_range(0,STAB);
#endif
    stab[i]=cl((label_t)i)->stability; }
  for(int i=2;i<=n;i++) kids[cl((label_t)i)->parent->label]++;
  for(int i=1;i<=n;i++) low[i]=kids[i]?1e9:cl((label_t)i)->deathLevel;
  for(int i=n;i>=2;i--){ int p=(int)cl((label_t)i)->parent->label; int own=!kids[i]||stab[i]>=prop[i];
    if(own){ sel[p]|=1ul<<i; prop[p]+=stab[i]; } else{ sel[p]|=sel[i]; prop[p]+=prop[i]; } if(low[i]<low[p]) low[p]=low[i]; }
  boolean inf=hdbscan_propagate_tree(sc); hdbscan_find_prominent_clusters(sc,inf);
  /* members of a cluster at its birth: the points whose last cluster lies in its subtree */
  for(int p=0;p<VN;p++){ label_t want=0; for(label_t l=lastc[p];;){ if(sel[1]>>l&1) want=l; cluster*q=cl(l)->parent; if(!q) break; l=q->label; }
    vf_assert(sc->clusterLabels[p]==want,"flat-label"); if(want) vf_reach("clustered"); else vf_reach("noise"); }
  for(int i=1;i<=n;i++) if(sel[1]>>i&1) for(cluster*q=cl((label_t)i)->parent;q;q=q->parent) vf_assert(!(sel[1]>>q->label&1),"no-nested-clusters");
#ifdef OUTL
  for(int p=0;p<VN;p++) 
#ifdef KNOWN
    core[p]=(distance_t)(p<2?vf_range(0,2):p*p%3);
#else
    core[p]=(distance_t)vf_range(0,2);
#endif

  sc->distanceFunction.coreDistances=core;
  hdbscsan_calculate_outlier_scores(sc,nlvl,lastc,inf);
  int seen[VN]={0};
  for(int i=0;i<VN;i++){ outlier_score*o=sc->outlierScores+i; index_t id=(index_t)vf_concretize(o->id); vf_assert(id<VN&&!seen[id],"each-point-once"); seen[id]=1;
    distance_t e=low[lastc[id]],w=nlvl[id]; vf_assert(o->score==(w==0?0:1-e/w),"score"); vf_assert(o->score>=0&&o->score<=1,"score-range"); vf_assert(o->coreDistance==core[id],"core-distance");
    if(i){ outlier_score*b=o-1; vf_assert(b->score<o->score||(b->score==o->score&&(b->coreDistance<o->coreDistance||(b->coreDistance==o->coreDistance&&b->id<o->id))),"sorted"); } }
  sc->distanceFunction.coreDistances=NULL;
#endif
  vf_reach("end");
  hdbscan_destroy(sc); vf_assert(vf_live()==0,"leak");
}
