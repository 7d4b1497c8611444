/* Printing results of any magnitude stays within the buffers and changes nothing. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "types.h"
#include "hdbscan/logger.h"
#include <string.h>
__attribute__((weak)) void print_distances(hdbscan*); __attribute__((weak)) void print_graph_components(ArrayList*,ArrayList*,ArrayList*);
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
static hashtable*map(int n,int kind,label_t*key){ hashtable*m=hashtable_init_size(3,LABEL_H,H_PTR,LABEL_CMP); 
  for(int k=0;k<n;k++){ key[k]=k+pick(0,1)?(label_t)(0x80000000u+k):(label_t)k;
    if(kind){ distance_values*d=malloc(sizeof*d); d->min_cr=ANY_DIST(); d->max_cr=ANY_DIST(); d->cr_confidence=ANY_DIST(); d->min_dr=ANY_DIST(); d->max_dr=ANY_DIST(); d->dr_confidence=ANY_DIST(); hashtable_insert(m,key+k,&d); }
    else { ArrayList*a=array_list_init(2,sizeof(index_t),INDEX_CMP); for(int t=pick(0,2);t>0;t--){ index_t v=(index_t)vf_in(32); array_list_append(a,&v); } hashtable_insert(m,key+k,&a); } } return m; }
void vf_main(void){ logger_init(); label_t key[2];
  switch(pick(0,9)){
    case 0: { hashtable*m=map(pick(0,2),0,key); hdbscan_print_cluster_map(m); vf_reach("map"); hdbscan_destroy_cluster_map(m); break; }
    case 1: { hashtable*m=map(pick(0,2),0,key); hdbscan_print_cluster_sizes(m); vf_reach("sizes"); hdbscan_destroy_cluster_map(m); break; }
    case 2: { hashtable*m=map(pick(0,2),1,key); hdbscan_print_distance_map(m); vf_reach("distances"); hdbscan_destroy_distance_map(m); break; }
    case 3: { clustering_stats s; s.count=(index_t)vf_in(32); stats_values*v[2]={&s.coreDistanceValues,&s.intraDistanceValues}; for(int i=0;i<2;i++){ v[i]->mean=ANY_DIST(); v[i]->max=ANY_DIST(); v[i]->skewness=ANY_DIST(); v[i]->kurtosis=ANY_DIST(); v[i]->variance=ANY_DIST(); v[i]->standardDev=ANY_DIST(); } hdbscan_print_stats(&s); vf_reach("stats"); break; }
    case 4: { int n=pick(0,2); outlier_score*s=malloc(sizeof(outlier_score)*2); for(int i=0;i<2;i++){ s[i].id=(index_t)vf_in(32); s[i].score=ANY_DIST(); s[i].coreDistance=ANY_DIST(); } hdbscan_print_outlier_scores(s,(index_t)n); vf_reach("scores"); free(s); break; }
    case 5: { hashtable*h=hashtable_init_size(3,H_LONG,H_PTR,long_compare); hierarchy_entry e[2]; label_t l[2][2]; int n=pick(0,2); for(long k=0;k<n;k++){ hierarchy_entry*p=e+k; e[k].edgeWeight=ANY_DIST(); e[k].labels=l[k]; for(int i=0;i<2;i++) l[k][i]=(label_t)vf_in(32); hashtable_insert(h,&k,&p); }
      char name[24]; int len=pick(0,20); strcpy(name,"/dev/null/"); for(int i=10;i<len;i++) name[i]='a'; if(len>10) name[len]=0; int named=pick(0,1);
      hdbscan_print_hierarchies(h,2,named?name:NULL); vf_reach(named?"file":"levels"); hashtable_destroy(h,NULL,NULL); break; }
    case 6: { hdbscan*s=hdbscan_init(NULL,2); s->numPoints=s->distanceFunction.rows=3; s->distanceFunction.distances=malloc(3*sizeof(distance_t)); for(int i=0;i<3;i++) s->distanceFunction.distances[i]=ANY_DIST(); distances_print(&s->distanceFunction); if(print_distances) print_distances(s); vf_reach("table"); hdbscan_destroy(s); break; }
    case 7: { ArrayList*a=array_list_init(2,sizeof(index_t),INDEX_CMP),*b=array_list_init(2,sizeof(index_t),INDEX_CMP),*w=array_list_init(2,sizeof(distance_t),DIST_CMP); int n=pick(0,2); for(int i=0;i<n;i++){ index_t x=(index_t)pick(0,1),y=(index_t)pick(0,1); distance_t d=ANY_DIST(); array_list_append(a,&x); array_list_append(b,&y); array_list_append(w,&d); }
      UndirectedGraph*g=graph_init(NULL,2,a,b,w); graph_print(g); vf_reach("graph"); graph_destroy(g); break; }
    case 8: { ArrayList*a=array_list_init(2,sizeof(index_t),INDEX_CMP),*b=array_list_init(2,sizeof(index_t),INDEX_CMP),*w=array_list_init(2,sizeof(distance_t),DIST_CMP); for(int n=pick(0,2);n>0;n--){ index_t x=(index_t)vf_in(32),y=(index_t)vf_in(32); distance_t d=ANY_DIST(); array_list_append(a,&x); array_list_append(b,&y); array_list_append(w,&d); }
      if(print_graph_components) print_graph_components(a,b,w); vf_reach("components"); array_list_delete(a); array_list_delete(b); array_list_delete(w); break; }
    default: { char t[40]; int n=pick(0,39); for(int i=0;i<n;i++) t[i]='x'; t[n]=0; logger_write((enum LOGTYPE)pick(FATAL,NONE),t); vf_reach("log"); } }
  LOG_CLOSE(); vf_reach("end"); vf_assert(vf_live()==0,"leak"); }
