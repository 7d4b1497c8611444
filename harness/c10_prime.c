/* Table sizes: the largest prime below the request. */
#include "vf.h"
#include "collections/primes.h"
#include "collections/hashtable.h"
#ifndef LO
#define LO 4
#define HI 1217
#endif
static int isPrime(int p){ if(p<2) return 0; for(int d=2;d<p&&d<=p/d;d++) if(p%d==0) return 0; return 1; }
void vf_main(void){
  int x=(int)vf_range(LO,HI);
#ifdef EACH
  x=(int)vf_concretize((unsigned long)x);
#endif
  int p=find_prime_less_than(x);
#ifdef LOW
  vf_assert(p==3,"smallest");   /* nothing in the supported range is smaller */
#else
  vf_assert(p<x,"below-request"); vf_assert(p>=3,"at-least-three");
  p=(int)vf_concretize((unsigned long)p);
  vf_assert(isPrime(p),"prime");
  int q=p+1; while(!isPrime(q)) q++;
  vf_assert(x<=q,"largest");
#endif
  vf_out((unsigned long)p);
  vf_reach("end");
}
