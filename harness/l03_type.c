/* The same values stored in another type, or as single elements instead of rows of one, give the same results. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "same.h"
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
#ifndef NMIN
#define NMIN 1
#endif
#ifndef CMIN
#define CMIN 1
#endif
static double a[VN*VC]; static T b[VN*VC];
void vf_main(void){
  int n=pick(NMIN,VN),c=pick(CMIN,VC),m=pick(2,VM); for(int i=0;i<n*c;i++){ int x=(int)vf_range(LO,HI); a[i]=(double)x; b[i]=(T)x; }
  hdbscan*s=hdbscan_init(NULL,(index_t)m),*t=hdbscan_init(NULL,(index_t)m);
#ifdef FLAT
  vf_assert(hdbscan_run(s,a,(index_t)(n*c),1,1,H_DOUBLE)==HDBSCAN_SUCCESS,"run"); vf_assert(hdbscan_run(t,b,(index_t)n,(index_t)c,0,HT)==HDBSCAN_SUCCESS,"run-flat"); vf_assert(t->numPoints==(index_t)(n*c),"one-point-per-element");
#else
  vf_assert(hdbscan_run(s,a,(index_t)n,(index_t)c,1,H_DOUBLE)==HDBSCAN_SUCCESS,"run"); vf_assert(hdbscan_run(t,b,(index_t)n,(index_t)c,1,HT)==HDBSCAN_SUCCESS,"run-type");
#endif
  same(s,t); for(int i=0;i<n*c;i++) vf_assert(b[i]==(T)a[i],"data-untouched");
  vf_reach("end"); hdbscan_destroy(s); hdbscan_destroy(t); vf_assert(vf_live()==0,"leak");
}
