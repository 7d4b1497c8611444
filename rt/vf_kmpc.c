/* A small OpenMP runtime for native replays: real threads (for the thread sanitizer), or one after another in a chosen order. */
#include <pthread.h>
#include <stdlib.h>
#include <stdint.h>
typedef void (*micro)();
typedef struct { micro f; int n, tid; void **a; } job;
static __thread int tid_, in_; static int nth_=1; static pthread_barrier_t bar_; static pthread_mutex_t crit_[64], red_=PTHREAD_MUTEX_INITIALIZER; static int seq_;
static int want(void){ char*s=getenv("MINIKMPC_THREADS"); int n=s?atoi(s):1; return n<1?1:n; }
static void call(micro f,int32_t*g,int n,void**a){ int32_t b=*g;
  switch(n){ case 0: f(g,&b); break; case 1: f(g,&b,a[0]); break; case 2: f(g,&b,a[0],a[1]); break; case 3: f(g,&b,a[0],a[1],a[2]); break; case 4: f(g,&b,a[0],a[1],a[2],a[3]); break;
    case 5: f(g,&b,a[0],a[1],a[2],a[3],a[4]); break; case 6: f(g,&b,a[0],a[1],a[2],a[3],a[4],a[5]); break; case 7: f(g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6]); break;
    case 8: f(g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]); break; default: f(g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14]); } }
static void*run(void*p){ job*j=p; tid_=j->tid; in_=1; int32_t g=j->tid; call(j->f,&g,j->n,j->a); in_=0; tid_=0; return 0; }
void __kmpc_fork_call(void*loc,int32_t n,micro f,...){ void*a[16]={0}; __builtin_va_list v; __builtin_va_start(v,f); for(int i=0;i<n&&i<15;i++) a[i]=__builtin_va_arg(v,void*); __builtin_va_end(v);
  if(in_){ int32_t g=tid_; call(f,&g,n,a); return; }
  int T=want(); char*d=getenv("MINIKMPC_DESC"); int desc=d&&*d=='1'; nth_=T; seq_=getenv("MINIKMPC_SEQ")!=0; job j[T]; pthread_t t[T]; pthread_barrier_init(&bar_,0,(unsigned)T); static int once; if(!once){ once=1; for(int i=0;i<64;i++) pthread_mutex_init(crit_+i,0); }
  for(int k=0;k<T;k++){ int i=desc?T-1-k:k; j[i]=(job){f,n,i,a}; if(seq_) run(j+i); else pthread_create(t+i,0,run,j+i); }
  if(!seq_) for(int i=0;i<T;i++) pthread_join(t[i],0); pthread_barrier_destroy(&bar_); nth_=1; }
#define SINIT(name,T,I) void name(void*loc,int32_t gt,int32_t sched,int32_t*last,T*lo,T*up,T*st,I inc,I ch){ int n=in_?nth_:1,t=in_?tid_:0; T l=*lo,u=*up; int64_t trip=inc>0?(u>=l?(int64_t)((u-l)/(T)inc)+1:0):(l>=u?(int64_t)((l-u)/(T)-inc)+1:0); *st=(T)inc; if(!trip){ *last=0; return; } \
  if(sched==33){ if(ch<1) ch=1; T span=(T)ch*(T)inc; *lo=l+span*(T)t; *up=*lo+span-(T)inc; *st=span*(T)n; *last=(trip-1)/(int64_t)ch%n==t; return; } \
  int64_t q=(trip+n-1)/n,b=q*t,e=b+q<trip?b+q-1:trip-1; if(b>=trip){ *lo=u+(T)inc; *up=u; *last=0; } else { *lo=l+(T)b*(T)inc; *up=l+(T)e*(T)inc; *last=e==trip-1; } *st=(T)q*(T)inc; }
SINIT(__kmpc_for_static_init_4,int32_t,int32_t) SINIT(__kmpc_for_static_init_4u,uint32_t,int32_t) SINIT(__kmpc_for_static_init_8,int64_t,int64_t) SINIT(__kmpc_for_static_init_8u,uint64_t,int64_t)
void __kmpc_for_static_fini(void*l,int32_t g){}
void __kmpc_barrier(void*l,int32_t g){ if(in_&&nth_>1&&!seq_) pthread_barrier_wait(&bar_); }
static unsigned slot(void*p){ return (unsigned)((uintptr_t)p>>3)%64; }
void __kmpc_critical(void*l,int32_t g,void*k){ if(in_&&!seq_) pthread_mutex_lock(crit_+slot(k)); }
void __kmpc_end_critical(void*l,int32_t g,void*k){ if(in_&&!seq_) pthread_mutex_unlock(crit_+slot(k)); }
int32_t __kmpc_global_thread_num(void*l){ return in_?tid_:0; }
void __kmpc_push_num_threads(void*l,int32_t g,int32_t n){}
int32_t __kmpc_single(void*l,int32_t g){ return tid_==0; }
void __kmpc_end_single(void*l,int32_t g){}
int32_t __kmpc_master(void*l,int32_t g){ return tid_==0; }
void __kmpc_end_master(void*l,int32_t g){}
int32_t __kmpc_reduce(void*l,int32_t g,int32_t n,size_t s,void*d,void*f,void*k){ if(in_&&!seq_) pthread_mutex_lock(&red_); return 1; }
int32_t __kmpc_reduce_nowait(void*l,int32_t g,int32_t n,size_t s,void*d,void*f,void*k){ return __kmpc_reduce(l,g,n,s,d,f,k); }
void __kmpc_end_reduce(void*l,int32_t g,void*k){ if(in_&&!seq_) pthread_mutex_unlock(&red_); }
void __kmpc_end_reduce_nowait(void*l,int32_t g,void*k){ __kmpc_end_reduce(l,g,k); }
int omp_get_num_threads(void){ return in_?nth_:1; }
int omp_get_max_threads(void){ return want(); }
int omp_get_thread_num(void){ return in_?tid_:0; }
int omp_get_num_procs(void){ return want(); }
int omp_in_parallel(void){ return in_&&nth_>1; }
void omp_set_num_threads(int n){}
double omp_get_wtime(void){ return 0; }
