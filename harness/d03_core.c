/* Core distance = k-th smallest distance to another point, for any distances. */
#include <float.h>
#include "vf.h"
#include "hdbscan/distance.h"
#include "types.h"
#ifndef VN
#define VN 4
#endif
#define E_ (VN*(VN-1)/2)
void vf_main(void){ LOG_START();
  distance dis; distance_init(&dis,_EUCLIDEAN,H_DOUBLE);
  distance_t d[E_], c[VN]; index_t m=(index_t)vf_concretize((unsigned long)vf_range(1,VN-1));
  int p=(int)vf_concretize((unsigned long)vf_range(0,VN-1));   /* the point whose distances are arbitrary; the others are treated alike */
  for(int i=0,k=0;i<VN;i++) for(int j=i+1;j<VN;j++,k++){
#ifdef ONE
    if(i!=p&&j!=p){ d[k]=(distance_t)(VK+1+k%3); continue; }
#endif
#ifdef VK
    d[k]=(distance_t)vf_range(0,VK);
#else
    d[k]=ANY_DIST(); vf_assume(d[k]>=0&&d[k]<=D_MAX);
#endif
  }
  dis.distances=d; dis.coreDistances=c; dis.rows=VN; dis.numNeighbors=m;
  distance_get_core_distances(&dis);
  for(int i=0;i<VN;i++){ if(i!=p) continue; unsigned lt=0,le=0; for(int j=0;j<VN;j++) if(j!=i){ int a=i<j?i:j,b=i<j?j:i; distance_t x=d[a*VN+b-(a+1)*(a+2)/2]; lt+=x<c[i]; le+=x<=c[i]; }
    vf_assert(lt<m&&le>=m,"kth-nearest"); vf_out(vf_dbits(c[i])); }
  vf_reach("end");
}
