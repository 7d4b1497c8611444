/* The packed upper triangle: where the distance of a pair is read from, for N points. */
#include "vf.h"
#include "hdbscan/distance.h"
/* the array extends far to both sides of the matrix, so that a wrong slot is seen as a wrong value */
#define OFF (1ul<<34)
void vf_main(void){
  distance dis; distance_init(&dis,_EUCLIDEAN,H_DOUBLE);
  #ifdef N
  unsigned long n=N, i=(unsigned long)vf_range(0,N-1), j=(unsigned long)vf_range(0,N-1);
#else
#define N MAXN
  unsigned long n=(unsigned long)vf_range(2,MAXN), i=(unsigned long)vf_range(0,MAXN-1), j=(unsigned long)vf_range(0,MAXN-1);
#endif
  vf_assume(i<=j); vf_assume(j<n);
  dis.rows=(index_t)n; dis.distances=(distance_t*)vf_ident((OFF+(1ul<<35))*sizeof(distance_t),sizeof(distance_t))+OFF;
  if(vf_concretize(i==j)){ vf_assert(distance_get(&dis,(index_t)i,(index_t)j)==0,"self"); vf_reach("self"); return; }
  unsigned long m=i+1, want=n*i+j-(m*m+m)/2;
  int up=(int)vf_concretize((unsigned long)vf_range(0,1));
  distance_t g=up?distance_get(&dis,(index_t)i,(index_t)j):distance_get(&dis,(index_t)j,(index_t)i);
  vf_assert((unsigned long)g-OFF==want,"row-major-upper-triangle");
  if(i>N/2) vf_reach("large");
  vf_out((unsigned long)g-OFF);
  vf_reach("end");
}
