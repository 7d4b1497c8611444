/* Two clustering objects hold the same results. */
static void same(hdbscan*a,hdbscan*b){
  vf_assert(a->numPoints==b->numPoints,"points");
  for(index_t p=0;p<a->numPoints;p++){ vf_assert(a->clusterLabels[p]==b->clusterLabels[p],"same-label");
    outlier_score*x=a->outlierScores+p,*y=b->outlierScores+p; vf_assert(x->id==y->id&&x->score==y->score&&x->coreDistance==y->coreDistance,"same-score"); }
  vf_assert(hashtable_size(a->hierarchy)==hashtable_size(b->hierarchy),"same-levels");
  for(long k=0;k<(long)hashtable_size(b->hierarchy);k++){ hierarchy_entry*x=NULL,*y=NULL; hashtable_lookup(a->hierarchy,&k,&x); hashtable_lookup(b->hierarchy,&k,&y); vf_assert(x&&y&&x->edgeWeight==y->edgeWeight,"same-level");
    for(index_t p=0;p<a->numPoints;p++) vf_assert(x->labels[p]==y->labels[p],"same-level-label"); }
  vf_assert(a->clusters->size==b->clusters->size,"same-clusters"); for(size_t i=1;i<b->clusters->size;i++){ cluster*x=((cluster**)a->clusters->data)[i],*y=((cluster**)b->clusters->data)[i]; vf_assert(x->label==y->label&&x->deathLevel==y->deathLevel&&x->offset==y->offset,"same-cluster"); vf_assert(x->stability==y->stability||y->stability!=y->stability,"same-stability"); } }
