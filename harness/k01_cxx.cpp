/* The C++ interface gives what the C interface gives. */
#include "vf.h"
#include "hdbscan/hdbscan.hpp"
#include "types.h"
using namespace clustering;
#include "same.h"
#define NRANGE 8
#ifndef NMIN
#define NMIN 1
#endif
#ifndef VC
#define VC 1
#endif
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
static double x[VN*VC];
static int same_(distance_t a,distance_t b){ return a==b||(a!=a&&b!=b); }
static void samestats(const stats_values&a,const stats_values&b){ vf_assert(same_(a.mean,b.mean)&&same_(a.max,b.max)&&same_(a.variance,b.variance)&&same_(a.standardDev,b.standardDev)&&same_(a.skewness,b.skewness)&&same_(a.kurtosis,b.kurtosis),"same-moments"); }
static void sorted(const std::vector<label_t>&v,ArrayList*l,size_t n){ vf_assert(v.size()==n&&l->size==n,"every-cluster-once"); for(size_t i=0;i<n;i++){ int a=0,b=0; for(size_t j=0;j<n;j++){ a+=v[j]==v[i]; b+=((label_t*)l->data)[j]==v[i]; } vf_assert(a==1&&b==1,"same-clusters-sorted"); } }
static void body(){
  int m=pick(2,VM),n=pick(NMIN,VN); for(int i=0;i<n*VC;i++) x[i]=(double)VF_POINT(i);
  hdbscan h((index_t)m); h.run(x,(index_t)n,VC,1,H_DOUBLE); hdbscan*s=hdbscan_init(NULL,(index_t)m); hdbscan_run(s,x,(index_t)n,VC,1,H_DOUBLE); same(&h,s);
  if(pick(0,1)){ int k=pick(2,VM); h.reRun((index_t)k); hdbscan_rerun(s,(index_t)k); same(&h,s); vf_reach("rerun"); }
  int b=pick(0,n>NRANGE?NRANGE:n),e=n>NRANGE?pick(n-2,n):pick(b,n); label_t*L=s->clusterLabels;
  map_t c=createClusterMap(h.clusterLabels,(index_t)b,(index_t)e); hashtable*t=hdbscan_create_cluster_map(L,(index_t)b,(index_t)e);
  vf_assert(c.size()==hashtable_size(t),"same-map-size");
  for(map_t::iterator it=c.begin();it!=c.end();++it){ label_t key=it->first; ArrayList*a=NULL; hashtable_lookup(t,&key,&a); vf_assert(a&&a->size==it->second.size(),"same-members"); for(size_t i=0;i<a->size;i++) vf_assert(((index_t*)a->data)[i]==it->second[i],"same-member"); }
  std::map<label_t,distance_values> d=getMinMaxDistances(h,c); hashtable*u=hdbscan_get_min_max_distances(s,t); vf_assert(d.size()==hashtable_size(u),"same-extremes-size");
  clustering_stats p,q; int any=!c.empty(); if(any){ calculateStats(d,p); hdbscan_calculate_stats(u,&q); vf_assert(p.count==q.count,"same-count");
    if(p.count>1){ samestats(p.coreDistanceValues,q.coreDistanceValues); samestats(p.intraDistanceValues,q.intraDistanceValues); vf_assert(analyseStats(p)==hdbscan_analyse_stats(&q),"same-validity"); vf_reach("several"); } }
  for(std::map<label_t,distance_values>::iterator it=d.begin();it!=d.end();++it){ label_t key=it->first; distance_values*v=NULL,&w=it->second; hashtable_lookup(u,&key,&v); vf_assert(v&&v->min_cr==w.min_cr&&v->max_cr==w.max_cr&&v->min_dr==w.min_dr&&v->max_dr==w.max_dr,"same-extremes"); vf_assert(same_(v->cr_confidence,w.cr_confidence)&&same_(v->dr_confidence,w.dr_confidence),"same-confidence"); }
  if(any){ std::vector<label_t> v,w; sortByLength(c,v); ArrayList*l=hdbscan_sort_by_length(t,NULL); sorted(v,l,c.size()); for(size_t i=1;i<v.size();i++) vf_assert(c[v[i-1]].size()<=c[v[i]].size(),"by-length"); array_list_delete(l);
    int ty=pick(0,1); sortBySimilarity(d,w,ty); l=hdbscan_sort_by_similarity(u,NULL,ty); sorted(w,l,c.size()); int nan=0; for(size_t i=0;i<w.size();i++){ distance_t f=ty==CORE_DISTANCE_TYPE?d[w[i]].cr_confidence:d[w[i]].dr_confidence; nan|=f!=f; } for(size_t i=1;i<w.size()&&!nan;i++) vf_assert(ty==CORE_DISTANCE_TYPE?d[w[i-1]].cr_confidence<=d[w[i]].cr_confidence:d[w[i-1]].dr_confidence<=d[w[i]].dr_confidence,"by-similarity");
    array_list_delete(l); sortByLength(c,v); sortBySimilarity(d,w,ty); vf_assert(v.size()==c.size()&&w.size()==d.size(),"given-list"); }
  else { std::vector<label_t> v; sortByLength(c,v); sortBySimilarity(d,v,0); vf_assert(v.empty(),"no-clusters"); }
#if PRINTS
  { map_t c2=c; std::map<label_t,distance_values> d2=d; printClusterMap(c); printClusterSizes(c); printDistanceMap(d); if(any) printStats(p); vf_assert(c==c2&&d.size()==d2.size(),"printing-changes-nothing");
    for(std::map<label_t,distance_values>::iterator i=d.begin(),j=d2.begin();i!=d.end();++i,++j) vf_assert(i->first==j->first&&i->second.min_cr==j->second.min_cr&&i->second.max_cr==j->second.max_cr&&i->second.min_dr==j->second.min_dr&&i->second.max_dr==j->second.max_dr,"printing-changes-no-extremes"); vf_reach("printed"); }
#endif
  hdbscan_destroy_distance_map(u); hdbscan_destroy_cluster_map(t); hdbscan_destroy(s); if(pick(0,1)){ h.clean(); vf_reach("cleaned"); } }
static void steps(){ int m=pick(2,VM),n=pick(NMIN,VN); for(int i=0;i<n*VC;i++) x[i]=(double)VF_POINT(i);
  hdbscan*s=hdbscan_init(NULL,(index_t)m); hdbscan_run(s,x,(index_t)n,VC,1,H_DOUBLE);
  hdbscan h((index_t)m); h.numPoints=(index_t)n; h.distanceFunction.cal=_EUCLIDEAN; h.distanceFunction.datatype=H_DOUBLE; distance_compute(&h.distanceFunction,x,(index_t)n,VC,(index_t)(m-1)); h.distanceFunction.getCoreDistances((index_t)(m-1));
  h.clusters=ptr_array_list_init(4,cluster_compare); h.clusterStabilities=hashtable_init(4,LABEL_H,H_PTR,LABEL_CMP); h.hierarchy=hashtable_init(4,H_LONG,H_PTR,long_compare);
  distance_t nl[VN]; label_t lc[VN]; h.constructMST(); graph_quicksort_by_edge_weight(h.mst); h.computeHierarchyAndClusterTree(0,nl,lc); boolean inf=h.propagateTree(); h.findProminentClusters(inf); h.calculateOutlierScores(nl,lc,inf); same(&h,s);
  hdbscan_destroy(s); UndirectedGraph g; vf_assert(g.numVertices==0,"empty-graph"); vf_reach("steps"); }
static void table(){ int n=pick(1,3),c=pick(1,2),t=pick(0,1); static int xi[6]; static float xf[6]; for(int i=0;i<n*c;i++){ int v=(int)vf_range(-2,2); xi[i]=v; xf[i]=(float)v; } int k=pick(0,n-1); 
  Distance d(_EUCLIDEAN,t?H_INT:H_FLOAT); Distance*e=distance_init(NULL,_EUCLIDEAN,t?H_INT:H_FLOAT); void*p=t?(void*)xi:(void*)xf; distance_compute(&d,p,(index_t)n,(index_t)c,(index_t)k); distance_compute(e,p,(index_t)n,(index_t)c,(index_t)k);
  for(int i=0;i<n;i++){ vf_assert(d.coreDistances[i]==e->coreDistances[i],"same-core"); for(int j=0;j<n;j++) vf_assert(distance_get(&d,(index_t)i,(index_t)j)==distance_get(e,(index_t)i,(index_t)j),"same-distance"); }
  int l=pick(0,n-1); d.getCoreDistances((index_t)l); e->numNeighbors=(index_t)l; distance_get_core_distances(e); for(int i=0;i<n;i++) vf_assert(d.coreDistances[i]==e->coreDistances[i],"same-core-again"); distance_destroy(e); vf_reach("table"); }
#if PARTS
static void part(){ if(pick(0,1)) steps(); else table(); }
#else
#define part body
#endif
extern "C" void vf_main(void){ LOG_START();
#ifdef THR
  vf_threads(THR); vf_desc(pick(0,1));
#endif
  part(); vf_reach("end"); vf_assert(vf_live()==0,"leak"); }
