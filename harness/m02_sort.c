/* Sorting the edges of a graph by weight keeps every edge together. */
#include "vf.h"
#include "hdbscan/undirected_graph.h"
#include "types.h"
#ifndef E0
#define E0 0
#endif
#ifndef EN
#define EN 5
#endif
void vf_main(void){ LOG_START();
  int n=(int)vf_concretize((unsigned long)vf_range(E0,EN));
  ArrayList*a=array_list_init(EN,sizeof(index_t),INDEX_CMP),*b=array_list_init(EN,sizeof(index_t),INDEX_CMP),*w=array_list_init(EN,sizeof(distance_t),DIST_CMP);
  distance_t x[EN];
  for(index_t i=0;i<(index_t)n;i++){ 
#ifdef FREE   /* the weights of all but the first FREE edges are known */
    x[i]=(distance_t)(i<FREE?vf_range(0,VK):i*7%5);
#elif defined VK
    x[i]=(distance_t)vf_range(0,VK);
#else
    x[i]=ANY_DIST(); vf_assume(x[i]==x[i]);
#endif
    index_t v=i,u=(i*3+1)%EN; array_list_append(a,&v); array_list_append(b,&u); array_list_append(w,&x[i]); }
  UndirectedGraph*g=graph_init(NULL,EN,a,b,w);
  graph_quicksort_by_edge_weight(g);
  vf_assert((int)g->verticesA->size==n&&(int)g->verticesB->size==n&&(int)g->edgeWeights->size==n,"sizes");
  int seen[EN]; distance_t prev=0; for(int i=0;i<EN;i++) seen[i]=0;
  for(int i=0;i<n;i++){ index_t u,v; distance_t y; array_list_value_at(a,(size_t)i,&v); array_list_value_at(b,(size_t)i,&u); array_list_value_at(w,(size_t)i,&y); v=(index_t)vf_concretize(v);
    vf_assert(v<(index_t)n&&!seen[v],"each-edge-once"); seen[v]=1; vf_assert(u==(v*3+1)%EN,"ends-kept"); vf_assert(vf_dbits(y)==vf_dbits(x[v]),"weight-kept"); if(i) vf_assert(prev<=y,"ascending"); prev=y; }
  for(int i=0;i<EN;i++){ int deg=0; for(int j=0;j<n;j++){ int k=(j*3+1)%EN; deg+=(j==i)+(k==i&&k!=j); } vf_assert((int)g->edges[i]->size==deg,"adjacency-kept"); }
  vf_reach("end");
  graph_destroy(g); vf_assert(vf_live()==0,"leak");
}
