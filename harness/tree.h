/* A weighted graph in ascending order of weight, and what its hierarchy of density-connected components must look like. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "types.h"
#ifndef MINLO
#define MINLO 2
#endif
#ifndef MINHI
#define MINHI VN
#endif
#define EM (2*VN)
static index_t EA[EM],EB[EM]; static distance_t EW[EM]; static int elev[EM],ne,nlev; static distance_t LW[EM+1];
static int minPts;
static int comp_[EM+1][VN]; /* component of a point once only the edges up to a level remain; -1: fewer than minPts points */
static distance_t nlvl[VN]; static label_t lastc[VN];
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
static int entryOf[EM+1]; /* hierarchy key recorded for a level, or 0 */
static label_t *lab[EM+2]; static int nent; static distance_t entW[EM+2];
static void addEdge(index_t a,index_t b,distance_t w){
  EA[ne]=a; EB[ne]=b; EW[ne]=w; if(ne){ vf_assume(w>=EW[ne-1]); }
  elev[ne]=ne?elev[ne-1]+(w>EW[ne-1]):0; LW[elev[ne]]=w; nlev=elev[ne]+1; ne++; }
#ifdef LEVELS /* at most this many levels, the edges of one level in ascending order */
static int prevA;
#define CANON(a) { vf_assume(nlev<=LEVELS); if(ne>1&&elev[ne-1]==elev[ne-2]) vf_assume(prevA<(a)); prevA=(a); }
#else
#define CANON(a)
#endif
static void components(void){
  for(int L=-1;L<nlev;L++){ int c[VN]; for(int p=0;p<VN;p++) c[p]=p;
    for(int e=0;e<ne;e++) if(elev[e]<=L&&c[EA[e]]!=c[EB[e]]){ int o=c[EB[e]],n=c[EA[e]]; for(int p=0;p<VN;p++) if(c[p]==o) c[p]=n; }
    for(int p=0;p<VN;p++){ int s=0; for(int q=0;q<VN;q++) s+=c[q]==c[p]; comp_[L+1][p]=s>=minPts?c[p]:-1; } } }
#define COMP(L,p) comp_[(L)+1][p]
/* the KNOWN lightest edges of a path are given: which, and their weights below 1 */
#ifndef KMUL
#define KMUL 7
#define KADD 3
#endif
#ifdef KNOWN
#define PEDGE(t) ((t)<KNOWN?((t)*KMUL+KADD)%(VN-1):pick(0,VN-2))
#define PWEIGHT(t) ((t)<KNOWN?(distance_t)(1<<(t)/2)/4096:weight())
#else
#define PEDGE(t) pick(0,VN-2)
#define PWEIGHT(t) weight()
#endif
/* the shape of a path may be another tree: LEGS paths from point 0, or a binary tree */
#ifdef LEGS
#define PARENT(v) ((v)<=LEGS?0:(v)-LEGS)
#elif defined BINARY
#define PARENT(v) (((v)-1)/2)
#else
#define PARENT(v) ((v)-1)
#endif
#ifdef REVERSED /* the root is the last point */
#define NAME(v) ((index_t)(VN-1-(v)))
#else
#define NAME(v) ((index_t)(v))
#endif
static hdbscan *sc;
static void build(void){
  sc=hdbscan_init(NULL,(index_t)minPts); sc->numPoints=VN; sc->distanceFunction.rows=VN;
  ArrayList*a=array_list_init((size_t)ne+1,sizeof(index_t),INDEX_CMP),*b=array_list_init((size_t)ne+1,sizeof(index_t),INDEX_CMP),*w=array_list_init((size_t)ne+1,sizeof(distance_t),DIST_CMP);
  for(int e=0;e<ne;e++){ array_list_append(a,EA+e); array_list_append(b,EB+e); array_list_append(w,EW+e); }
  sc->mst=graph_init(NULL,VN,a,b,w); sc->clusters=ptr_array_list_init(4,cluster_compare); sc->clusterStabilities=hashtable_init(4,LABEL_H,H_PTR,LABEL_CMP);
  sc->hierarchy=hashtable_init(4,H_LONG,H_PTR,long_compare); sc->distanceFunction.numNeighbors=(index_t)(minPts-1); }
static cluster* cl(label_t l){ return ((cluster**)sc->clusters->data)[l]; }
static void entries(void){
  long k=0; hierarchy_entry*e=NULL; hashtable_lookup(sc->hierarchy,&k,&e); vf_assert(e!=NULL,"level-zero-recorded");
  for(int p=0;p<VN;p++) vf_assert(e->labels[p]==0,"level-zero-all-noise");
  nent=(int)hashtable_size(sc->hierarchy)-1; vf_assert(nent>=1&&nent<=nlev,"entry-count");
  for(k=1;k<=nent;k++){ e=NULL; hashtable_lookup(sc->hierarchy,&k,&e); vf_assert(e!=NULL,"levels-numbered"); lab[k]=e->labels; entW[k]=e->edgeWeight; for(int p=0;p<VN;p++) lab[k][p]=(label_t)vf_concretize(lab[k][p]);
    vf_assert(k==1||entW[k]<entW[k-1],"weights-decrease"); } }
/* Each level that changes anything is recorded, with exactly the components of the graph up to that weight as clusters. */
static void levels(int all){
  int k=1; for(int p=0;p<VN;p++) vf_assert(lab[1][p]==1,"first-level-one-cluster");
  for(int L=nlev-1;L>=0;L--){ entryOf[L]=0;
    if(k<=nent&&entW[k]==LW[L]){ entryOf[L]=k;
      for(int p=0;p<VN;p++){ vf_assert((lab[k][p]!=0)==(COMP(L,p)>=0),"noise-iff-small-component");
        for(int q=0;q<p;q++) if(lab[k][p]&&lab[k][q]) vf_assert((lab[k][p]==lab[k][q])==(COMP(L,p)==COMP(L,q)),"clusters-are-components"); }
      k++; }
    else if(all) for(int p=0;p<VN;p++){ vf_assert((COMP(L,p)<0)==(COMP(L-1,p)<0),"level-recorded"); for(int q=0;q<p;q++) vf_assert((COMP(L,p)==COMP(L,q))==(COMP(L-1,p)==COMP(L-1,q))||COMP(L,p)<0,"level-recorded"); } }
  vf_assert(k==nent+1,"levels-are-edge-weights"); }
/* labels persist while one child remains and are new, consecutive and in the right place of the cluster tree on a split */
static void labels(void){
  label_t next=2; for(int k=1;k<nent;k++){ label_t before=next;
    for(int p=0;p<VN;p++){ label_t n=lab[k+1][p],o=lab[k][p]; if(!n) continue; vf_assert(o!=0,"noise-stays-noise");
      int kids=0; for(int q=0;q<VN;q++) if(lab[k][q]==o&&lab[k+1][q]){ int first=1; for(int r=0;r<q;r++) if(lab[k][r]==o&&lab[k+1][r]==lab[k+1][q]) first=0; kids+=first; }
      if(kids==1) vf_assert(n==o,"label-persists"); else{ vf_assert(n>=before,"split-gives-new-labels"); if(n>=next) next=n+1;
        cluster*c=cl(n); vf_assert(c!=NULL&&c->label==n,"cluster-known"); vf_assert(c->parent==cl(o),"parent"); vf_assert(c->birthLevel==entW[k],"birth-level"); vf_assert(c->offset==k,"offset"); } }
    for(label_t l=before;l<next;l++){ int u=0; for(int p=0;p<VN;p++) u|=lab[k+1][p]==l; vf_assert(u,"labels-consecutive"); } }
  vf_assert(sc->clusters->size==next,"cluster-count"); vf_assert(cl(0)==NULL&&cl(1)->parent==NULL,"root"); }
/* level and cluster at which each point becomes noise */
static void noise(void){
  for(int p=0;p<VN;p++){ int L=nlev-1; while(L>0&&COMP(L-1,p)>=0) L--; vf_assert(nlvl[p]==LW[L],"noise-level"); vf_assert(entryOf[L]>0,"noise-level-recorded"); vf_assert(lastc[p]==lab[entryOf[L]][p],"last-cluster"); } }
/* members of a cluster over time, from the recorded levels */
static void accounting(int exact){
  for(label_t l=1;l<sc->clusters->size;l++){ cluster*c=cl(l); int kids=0,b=0,d=0; for(label_t m=2;m<sc->clusters->size;m++) kids+=cl(m)->parent==c;
    vf_assert(c->hasChildren==(kids>0),"has-children"); vf_assert(kids!=1,"no-only-child"); vf_assert(c->numPoints==0,"cluster-emptied");
    for(int k=1;k<=nent;k++) for(int p=0;p<VN;p++) if(lab[k][p]==l){ if(!b) b=k; d=k; }
    vf_assert(c->deathLevel==entW[d],"death-level");
    for(int p=0;p<VN;p++){ int n=lastc[p]==l; vf_assert(set_find(c->virtualChildCluster,&(index_t){(index_t)p})>=0?n:!n,"noise-of-cluster"); }
    if(exact){ if(l==1) continue; distance_t s=0; for(int k=b;k<=d;k++) for(int p=0;p<VN;p++) if(lab[k][p]==l&&(k==nent||lab[k+1][p]!=l)) s+=1/entW[k]-1/entW[b-1];
      vf_assert(c->stability==s,"stability"); } } }
