/* Minimum spanning tree of the mutual reachability graph, arbitrary distances and core distances. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "types.h"
#include <math.h>
#ifndef VN
#define VN 4
#endif
#define E_ (VN*(VN-1)/2)
static distance_t d[E_], core[VN];
static distance_t val(void){
#ifdef FAR /* none, one or out of reach: the distances of points further apart than numbers go */
  long v=vf_range(0,FAR); return v==2?(distance_t)INFINITY:v==3?(distance_t)NAN:(distance_t)v;
#elif defined VK
  return (distance_t)vf_range(0,VK);
#else
  return LOW_DIST();
#endif
}
static distance_t mrd(int p,int q){ int a=p<q?p:q,b=p<q?q:p; distance_t x=d[a*VN+b-(a+1)*(a+2)/2]; if(core[p]>x) x=core[p]; if(core[q]>x) x=core[q]; return x<D_MAX?x:D_MAX; }
static unsigned A[2*VN],B[2*VN]; static distance_t w[2*VN]; static int ne;
static void path(int p,int q){ /* the tree edges between p and q, found by pruning leaves */
  int deg[VN],alive[VN]; char on[VN-1>0?VN-1:1];
  for(int e=0;e<VN-1;e++) on[e]=1;
  for(int ch=1;ch;){ ch=0; for(int v=0;v<VN;v++) deg[v]=0; for(int e=0;e<VN-1;e++) if(on[e]){ deg[A[e]]++; deg[B[e]]++; }
    for(int e=0;e<VN-1;e++) if(on[e]) for(int s=0;s<2;s++){ int v=(int)(s?A[e]:B[e]); if(on[e]&&v!=p&&v!=q&&deg[v]==1){ on[e]=0; ch=1; } } }
  distance_t x=mrd(p,q); for(int e=0;e<VN-1;e++) if(on[e]) vf_assert(w[e]<=x,"heaviest-path-edge-is-minimal");
}
void vf_main(void){ LOG_START();
  hdbscan sc; hdbscan_init(&sc,2);
  int self=(int)vf_concretize((unsigned long)vf_range(SELF0,SELF1));
  for(int i=0;i<E_;i++) d[i]=val();
  for(int i=0;i<VN;i++) core[i]=val();
  sc.distanceFunction.distances=d; sc.distanceFunction.coreDistances=core; sc.distanceFunction.rows=VN; sc.numPoints=VN; sc.selfEdges=self;
  vf_assert(hdbscan_construct_mst(&sc)==HDBSCAN_SUCCESS,"ok");
  ne=VN-1+(self?VN:0);
  vf_assert((int)sc.mst->verticesA->size==ne&&(int)sc.mst->verticesB->size==ne&&(int)sc.mst->edgeWeights->size==ne,"edge-count");
  vf_assert(sc.mst->numVertices==VN,"vertex-count");
  int nt=0; unsigned comp[VN]; int selfSeen[VN]; for(int i=0;i<VN;i++){ comp[i]=(unsigned)i; selfSeen[i]=0; }
  unsigned at=0;
  for(int e=0;e<ne;e++){ index_t a,b; distance_t x; array_list_value_at(sc.mst->verticesA,(size_t)e,&a); array_list_value_at(sc.mst->verticesB,(size_t)e,&b); array_list_value_at(sc.mst->edgeWeights,(size_t)e,&x);
    a=(index_t)vf_concretize(a); b=(index_t)vf_concretize(b);
    vf_assert(a<VN&&b<VN,"vertices-exist");
    if(a==b){ vf_assert(self,"self-edges-only-on-request"); vf_assert(!selfSeen[a],"one-self-edge"); selfSeen[a]=1; vf_assert(x==core[a]||(x!=x&&core[a]!=core[a]),"self-edge-weight"); continue; }
    vf_assert(nt<VN-1,"tree-size"); A[nt]=a; B[nt]=b; w[nt]=x; nt++;
    vf_assert(x==mrd((int)a,(int)b),"edge-weight"); vf_assert(comp[a]!=comp[b],"acyclic");
    unsigned o=comp[b],n=comp[a]; for(int i=0;i<VN;i++) if(comp[i]==o) comp[i]=n; }
  vf_assert(nt==VN-1,"spanning");
  for(int p=0;p<VN;p++) for(int q=p+1;q<VN;q++) path(p,q);
  /* adjacency lists: every edge at both ends, self edges once */
  for(int v=0;v<VN;v++){ int deg=self; for(int e=0;e<nt;e++) deg+=(A[e]==(unsigned)v)+(B[e]==(unsigned)v); vf_assert((int)sc.mst->edges[v]->size==deg,"adjacency-size");
    for(int e=0;e<nt;e++) if(A[e]==(unsigned)v||B[e]==(unsigned)v){ index_t o=A[e]==(unsigned)v?B[e]:A[e]; vf_assert(array_list_find(sc.mst->edges[v],&o,0)>=0,"adjacent"); } }
  for(int e=0;e<nt;e++) vf_out(vf_dbits(w[e]));
  vf_reach("end");
  graph_destroy(sc.mst);
}
