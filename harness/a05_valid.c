/* Validity of a clustering from the signs of skewness and kurtosis. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "types.h"
static int part(distance_t s,distance_t k){ int sp=s>0,sn=s<0,kp=k>0,kn=k<0; return sp&kp?2:sn&kp?1:sp&kn?0:-1; }
void vf_main(void){ clustering_stats s,c; unsigned char*p=(unsigned char*)&s; for(unsigned i=0;i<sizeof s;i++) p[i]=0; s.count=(index_t)vf_in(32);
  s.coreDistanceValues.skewness=ANY_DIST(); s.coreDistanceValues.kurtosis=ANY_DIST(); s.intraDistanceValues.skewness=ANY_DIST(); s.intraDistanceValues.kurtosis=ANY_DIST(); c=s;
  int v=hdbscan_analyse_stats(&s); vf_assert(v==part(c.coreDistanceValues.skewness,c.coreDistanceValues.kurtosis)+part(c.intraDistanceValues.skewness,c.intraDistanceValues.kurtosis),"validity"); vf_assert(v>=-2&&v<=4,"range");
  vf_out((unsigned long)(v+2)); vf_assert(s.count==c.count,"stats-untouched"); vf_reach("end"); }
