/* Euclidean distance matrix of an arbitrary data set of every supported element type. */
#include "vf.h"
#include "hdbscan/distance.h"
#ifndef T
#define T double
#define HT H_DOUBLE
#endif
#ifndef ROWS
#define ROWS 2
#endif
#ifndef COLS
#define COLS 2
#endif
double sqrt(double); float sqrtf(float);
static distance_t diff2(T a,T b){
  distance_t d;
#ifdef WIDE   /* the exact difference rounded once */
  if(vf_concretize(a>b)) vf_assume(a>b); else vf_assume(!(a>b));
  d=a>b?(distance_t)((unsigned long)a-(unsigned long)b):(distance_t)((unsigned long)b-(unsigned long)a);
#else
  d=(distance_t)a-(distance_t)b;
#endif
  return d*d; }
void vf_main(void){
  distance dis; distance_init(&dis,_EUCLIDEAN,HT);
  T*x=malloc(sizeof(T)*ROWS*COLS),y[ROWS*COLS];
  for(int i=0;i<ROWS*COLS;i++){
#ifdef RANGE
    y[i]=x[i]=(T)vf_range(-RANGE,RANGE);
#else
    y[i]=x[i]=(T)vf_in(8*sizeof(T));
#endif
  }
  distance_compute(&dis,x,ROWS,COLS,NBR);
  vf_assert(dis.rows==ROWS&&dis.cols==COLS,"shape");
  for(int i=0;i<ROWS*COLS;i++) vf_assert(x[i]==y[i],"data-untouched");
  for(int i=0;i<ROWS;i++) for(int j=0;j<ROWS;j++){
    distance_t g=distance_get(&dis,i,j), s=0;
    if(i==j){ vf_assert(g==0,"self"); continue; }
    for(int k=0;k<COLS;k++){ int a=i<j?i:j,b=i<j?j:i; s+=diff2(y[a*COLS+k],y[b*COLS+k]); }
    distance_t r=(distance_t)sqrt(s);
    union{distance_t d; unsigned long u; unsigned w;} G,R_; G.u=R_.u=0; G.d=g; R_.d=r;
    vf_assert(G.u==R_.u||(g<=r*(1+4e-7)&&g>=r*(1-4e-7)),"euclidean");
    if(i<j) vf_out(G.u);
  }
  vf_reach("end");
  distance_clean(&dis); free(x); vf_assert(vf_live()==0,"leak");
}
