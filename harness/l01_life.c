/* Histories of one clustering object: run, run again, rerun, clean; results depend only on the last data set and size. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "types.h"
#include "same.h"
#ifdef CONS /* constraints between points that the object is given and has to release */
#include <stdlib.h>
__attribute__((weak)) constraint* constraint_create(constraint*,int,int,CONSTRAINT_TYPE);
static void constrain(hdbscan*s,int k){ if(s->constraints) return; s->constraints=ptr_array_list_init(2,NULL); for(int i=0;i<k;i++){ int a=(int)vf_range(0,3),b=(int)vf_range(0,3); constraint*c=i||!constraint_create?malloc(sizeof(constraint)):NULL; if(constraint_create) c=constraint_create(c,a,b,(CONSTRAINT_TYPE)i); else { c->pointA=a; c->pointB=b; c->type=(CONSTRAINT_TYPE)i; } vf_assert(c->pointA==a&&c->pointB==b&&c->type==(CONSTRAINT_TYPE)i,"constraint-kept"); array_list_append(s->constraints,&c); } }
#else
#define constrain(s,k) (void)0
#endif
#ifndef T
#define T double
#define HT H_DOUBLE
#endif
#ifndef VK
#define VK 2
#endif
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
#ifdef SPECIAL
static T special(int k){ static const T v[]={0,1,-1,1e200,-1e200,1e-200,1.0/0,0.0/0}; return v[k]; }
#define VALUE special(pick(0,SPECIAL))
#else
#define VALUE (T)VF_POINT(k)
#endif
#ifndef MINR
#define MINR 1
#endif
static T data[2][MAXR*MAXC]; static int rows[2],cols[2],rw[2];
static int pts(int i){ return rw[i]?rows[i]:rows[i]*cols[i]; }
static void dataset(int i){ rows[i]=pick(MINR,MAXR); cols[i]=pick(1,MAXC); rw[i]=ROWWISE2?pick(0,1):1; for(int k=0;k<rows[i]*cols[i];k++) data[i][k]=VALUE; }
void vf_main(void){ LOG_START();
  int m=pick(2,MAXM); dataset(0);
  hdbscan*s=hdbscan_init(NULL,(index_t)m); constrain(s,1); vf_assert(hdbscan_run(s,data[0],(index_t)rows[0],(index_t)cols[0],rw[0],HT)==HDBSCAN_SUCCESS,"run");
  int last=0;
  vf_assert(s->numPoints==(index_t)pts(0),"point-count");
#if STEPS
  for(int t=0;t<STEPS;t++) switch(constrain(s,2),pick(0,2)){
    case 0: m=pick(2,MAXM); vf_assert(hdbscan_rerun(s,(index_t)m)==HDBSCAN_SUCCESS,"rerun"); vf_reach("rerun"); break;
    case 1: last=1; dataset(1); vf_assert(hdbscan_run(s,data[1],(index_t)rows[1],(index_t)cols[1],rw[1],HT)==HDBSCAN_SUCCESS,"run-again"); vf_reach("again"); break;
    default: vf_assert(hdbscan_run(s,data[last],(index_t)rows[last],(index_t)cols[last],rw[last],HT)==HDBSCAN_SUCCESS,"run-twice"); }
  hdbscan f; hdbscan_init(&f,(index_t)m); vf_assert(hdbscan_run(&f,data[last],(index_t)rows[last],(index_t)cols[last],rw[last],HT)==HDBSCAN_SUCCESS,"fresh");
  same(s,&f); hdbscan_clean(&f);
#endif
#ifdef CLEANED
  hdbscan_clean(s); vf_assert(hdbscan_run(s,data[last],(index_t)rows[last],(index_t)cols[last],rw[last],HT)==HDBSCAN_SUCCESS,"run-after-clean");
#endif
  for(index_t p=0;p<s->numPoints;p++) vf_out(s->clusterLabels[p]);
  vf_reach("end"); hdbscan_destroy(s); vf_assert(vf_live()==0,"leak");
}
