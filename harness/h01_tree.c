/* Cluster hierarchy of an arbitrary tree with arbitrary edge weights. */
#include "tree.h"
#ifndef SELF
#define SELF 0
#endif
static distance_t weight(void){
#ifdef EXACT
  int k=pick(0,EXACT); return k?(distance_t)(1<<(k-1)):0; /* 0 or a power of two: stabilities are exact */
#else
  return LOW_DIST();
#endif
}
void vf_main(void){ LOG_START();
  int swap=SELF?0:pick(0,1); minPts=pick(MINLO,MINHI);
#ifdef PATH /* the tree is a path, its edges in any order */
  int used[VN]={0}; for(int t=0;t<VN-1;t++){ int a=PEDGE(t); vf_assume(!used[a]); used[a]=1; addEdge(swap?NAME(a+1):NAME(PARENT(a+1)),swap?NAME(PARENT(a+1)):NAME(a+1),PWEIGHT(t)); CANON(a) }
#else
  int c[VN],self[VN],t=0; for(int p=0;p<VN;p++){ c[p]=p; self[p]=!SELF; }
  while(t<VN-1){ index_t a=(index_t)pick(0,VN-1),b=(index_t)pick((int)a,VN-1);
    if(a==b){ vf_assume(!self[a]); self[a]=1; addEdge(a,a,weight()); continue; }
    vf_assume(self[a]&&self[b]&&c[a]!=c[b]); int o=c[b],n=c[a]; for(int p=0;p<VN;p++) if(c[p]==o) c[p]=n; t++; addEdge(swap?b:a,swap?a:b,weight()); }
#endif
  components(); build();
  int compact=SELF?0:pick(0,1);
  vf_assert(hdbscan_compute_hierarchy_and_cluster_tree(sc,compact,nlvl,lastc)==HDBSCAN_SUCCESS,"ok");
  entries(); 
  if(!compact){ levels(1); labels(); noise();
#ifdef ACCT
    accounting(ACCT-1);
#endif
  } else levels(0);
  vf_reach("end"); if(sc->clusters->size>2) vf_reach("split"); if(nlev<ne) vf_reach("tie");
  sc->distanceFunction.distances=NULL; hdbscan_destroy(sc); vf_assert(vf_live()==0,"leak");
}
