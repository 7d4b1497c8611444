/* Propagation in an arbitrary cluster tree with arbitrary stabilities, death levels and satisfied constraints. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "types.h"
#include <math.h>
#ifndef NC
#define NC 5
#endif
#ifndef SMAX
#define SMAX 3
#endif
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
static int par[NC+1],sel[NC+1][NC+1],n; static distance_t stab[NC+1],prop[NC+1],death[NC+1],low[NC+1]; static unsigned cons[NC+1],pcons[NC+1];
void vf_main(void){ LOG_START();
  hdbscan*sc=hdbscan_init(NULL,2); sc->clusters=ptr_array_list_init(4,cluster_compare);
  n=pick(1,NC); cluster*c=NULL,*all[NC+1]={0}; array_list_append(sc->clusters,&c); int inf=0;
  for(int i=1;i<=n;i++){ par[i]=i==1?0:pick(1,i-1); c=cluster_init(NULL,(label_t)i,par[i]?all[par[i]]:NULL,1,3); all[i]=c; array_list_append(sc->clusters,&c);
    int s=(int)vf_range(0,SMAX); stab[i]=s;
#ifdef INF
    if(pick(0,1)){ stab[i]=INFINITY; inf=1; }
#endif
    if(i==1) stab[i]=NAN;
    death[i]=LOW_DIST(); cons[i]=0;
#ifdef CONS
    cons[i]=(unsigned)pick(0,CONS);
#endif
    c->stability=stab[i]; c->deathLevel=death[i]; c->numConstraintsSatisfied=cons[i]; }
  boolean r=hdbscan_propagate_tree(sc);
  int kids[NC+1]={0}; for(int i=1;i<=n;i++) low[i]=1e9;
  for(int i=2;i<=n;i++) kids[par[i]]++;
  for(int i=n;i>=1;i--){ /* children come after their parents */
    if(!kids[i]) low[i]=death[i];
    int own=!kids[i]||cons[i]>pcons[i]||(cons[i]==pcons[i]&&stab[i]>=prop[i]);
    vf_assert(all[i]->propagatedLowestChildDeathLevel==low[i],"lowest-death-level");
    if(kids[i]){ if(i>1) vf_assert(all[i]->propagatedStability==prop[i],"propagated-stability"); vf_assert(all[i]->propagatedNumConstraintsSatisfied==pcons[i],"propagated-constraints"); }
    int m=0; for(int j=1;j<=n;j++) m+=sel[i][j];
    vf_assert((int)all[i]->propagatedDescendants->size==m,"descendant-count");
    for(int j=1;j<=n;j++){ int f=0; for(int k=0;k<m;k++) f+=((cluster**)all[i]->propagatedDescendants->data)[k]==all[j]; vf_assert(f==sel[i][j],"descendants"); }
    if(i>1){ int p=par[i]; if(own){ sel[p][i]=1; prop[p]+=stab[i]; pcons[p]+=cons[i]; } else{ for(int j=1;j<=n;j++) sel[p][j]|=sel[i][j]; prop[p]+=prop[i]; pcons[p]+=pcons[i]; }
      if(low[i]<low[p]) low[p]=low[i]; } }
  vf_assert(r==(inf&&({ int f=0; for(int i=2;i<=n;i++) f|=isinf(stab[i])!=0; f; })),"infinite-stability-reported");
  vf_reach("end");
  hdbscan_destroy(sc); vf_assert(vf_live()==0,"leak");
}
