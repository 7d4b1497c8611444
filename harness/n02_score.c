/* Outlier scores are ordered by score, then core distance, then point. */
#include "vf.h"
#include <stdlib.h>
#include "hdbscan/outlier_score.h"
#include "types.h"
__attribute__((weak)) outlier_score* create_outlier_score(outlier_score*,distance_t,distance_t,index_t);
static outlier_score any(void){ outlier_score s; s.score=ANY_DIST(); s.coreDistance=ANY_DIST(); s.id=(index_t)vf_in(8*sizeof(index_t)); vf_assume(s.score==s.score&&s.coreDistance==s.coreDistance); return s; }
static int before(outlier_score*a,outlier_score*b){ return a->score<b->score||(a->score==b->score&&(a->coreDistance<b->coreDistance||(a->coreDistance==b->coreDistance&&a->id<b->id))); }
void vf_main(void){ LOG_START(); unsigned long base=vf_live();
  { outlier_score a=any(),b=any(); int r=outlier_score_compare(&a,&b); vf_assert((r<0)==before(&a,&b),"smaller"); vf_assert((r>0)==before(&b,&a),"greater"); vf_reach("compared"); }
  if(create_outlier_score){ outlier_score in,v=any(),*o=create_outlier_score(vf_range(0,1)?&in:NULL,v.score,v.coreDistance,v.id); vf_assert(o->score==v.score&&o->coreDistance==v.coreDistance&&o->id==v.id,"holds-what-it-was-given"); if(o!=&in) destroy_outlier_score(o); }
  vf_assert(vf_live()==base,"leak"); vf_reach("end"); }
