#include "vf.h"
#include "collections/primes.h"
static int isPrime(int p){ if(p<2) return 0; for(int d=2;d<p&&d<=p/d;d++) if(p%d==0) return 0; return 1; }
void vf_main(void){ int x=(int)vf_concretize((unsigned long)vf_range(LO,HI)); int p=get_prime(x); vf_assert(p>x,"larger"); p=(int)vf_concretize((unsigned long)p); vf_assert(isPrime(p),"prime"); vf_out((unsigned long)p); vf_reach("end"); }
