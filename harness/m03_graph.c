/* Adjacency of an arbitrary graph (parallel edges, at most one self edge per vertex), and removal of its edges in any order. */
#include "vf.h"
#include "hdbscan/undirected_graph.h"
#include "types.h"
#ifndef EN
#define EN 3
#endif
#ifndef NV
#define NV 3
#endif
static int m[NV][NV]; /* multiplicity */
static void check(UndirectedGraph*g){
  for(int v=0;v<NV;v++){ int deg=0; for(int u=0;u<NV;u++) deg+=m[v][u]; vf_assert((int)g->edges[v]->size==deg,"degree");
    for(int u=0;u<NV;u++){ int k=0; for(int i=0;i<deg;i++){ index_t x; array_list_value_at(g->edges[v],(size_t)i,&x); k+=x==(index_t)u; } vf_assert(k==m[v][u],"neighbours"); } }
}
void vf_main(void){ LOG_START();
  ArrayList*a=array_list_init(EN,sizeof(index_t),INDEX_CMP),*b=array_list_init(EN,sizeof(index_t),INDEX_CMP),*w=array_list_init(EN,sizeof(distance_t),DIST_CMP);
  int e[EN][2],n=(int)vf_concretize((unsigned long)vf_range(1,EN));
  for(int i=0;i<n;i++){ index_t u=(index_t)vf_concretize((unsigned long)vf_range(0,NV-1)),v=(index_t)vf_concretize((unsigned long)vf_range(0,NV-1)); distance_t x=i; e[i][0]=(int)u; e[i][1]=(int)v;
    vf_assume(u!=v||!m[u][u]); m[u][v]++; if(u!=v) m[v][u]++; array_list_append(a,&u); array_list_append(b,&v); array_list_append(w,&x); }
  UndirectedGraph*g=graph_init(NULL,NV,a,b,w);
  check(g);
  for(int k=0;k<n;k++){ int i=(int)vf_concretize((unsigned long)vf_range(0,n-1)); int sw=(int)vf_concretize((unsigned long)vf_range(0,1)); int u=e[i][sw],v=e[i][!sw];
    graph_remove_edge(g,(index_t)u,(index_t)v); if(m[u][v]){ m[u][v]--; if(u!=v) m[v][u]--; } check(g); }
  vf_reach("end");
  graph_destroy(g); vf_assert(vf_live()==0,"leak");
}
