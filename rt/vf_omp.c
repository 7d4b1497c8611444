/* Rarer entry points of the OpenMP runtime in terms of the ones the executor (and rt/vf_kmpc.c) provide. A dynamic schedule may
   give any iteration to any thread; here chunk k goes to thread k mod T. */
#include <stdint.h>
extern int omp_get_thread_num(void); extern int omp_get_num_threads(void);
extern void __kmpc_critical(void*,int32_t,void*); extern void __kmpc_end_critical(void*,int32_t,void*);
extern int32_t __kmpc_master(void*,int32_t);
static struct { int64_t lo,st,trip,next,chunk; char pad[24]; } vf_loop[16];
static void start(int64_t lo,int64_t up,int64_t st,int64_t ch,int uns){ int t=omp_get_thread_num(); int64_t n; if(st>0) n=(uns?(uint64_t)up>=(uint64_t)lo:up>=lo)?(int64_t)((uint64_t)(up-lo)/(uint64_t)st)+1:0; else n=(uns?(uint64_t)lo>=(uint64_t)up:lo>=up)?(int64_t)((uint64_t)(lo-up)/(uint64_t)-st)+1:0;
  vf_loop[t].lo=lo; vf_loop[t].st=st; vf_loop[t].trip=n; vf_loop[t].chunk=ch<1?1:ch; vf_loop[t].next=t; }
static int more(int64_t*lo,int64_t*up,int64_t*st,int32_t*last){ int t=omp_get_thread_num(),T=omp_get_num_threads(); int64_t b=vf_loop[t].next*vf_loop[t].chunk,e=b+vf_loop[t].chunk; if(b>=vf_loop[t].trip) return 0; if(e>vf_loop[t].trip) e=vf_loop[t].trip; vf_loop[t].next+=T;
  *lo=vf_loop[t].lo+b*vf_loop[t].st; *up=vf_loop[t].lo+(e-1)*vf_loop[t].st; *st=vf_loop[t].st; if(last) *last=e==vf_loop[t].trip; return 1; }
#define DISP(s,I,S,U) void __kmpc_dispatch_init_##s(void*l,int32_t g,int32_t k,I lo,I up,S st,S ch){ (void)l;(void)g; start((int64_t)lo,(int64_t)up,(int64_t)st,(k&~(1<<29|1<<30))==33||(k&~(1<<29|1<<30))==35||(k&~(1<<29|1<<30))==36?(int64_t)ch:1,U); } \
  int __kmpc_dispatch_next_##s(void*l,int32_t g,int32_t*last,I*lo,I*up,S*st){ (void)l;(void)g; int64_t a,b,c; if(!more(&a,&b,&c,last)) return 0; *lo=(I)a; *up=(I)b; *st=(S)c; return 1; } \
  void __kmpc_dispatch_fini_##s(void*l,int32_t g){ (void)l;(void)g; }
DISP(4,int32_t,int32_t,0) DISP(4u,uint32_t,int32_t,1) DISP(8,int64_t,int64_t,0) DISP(8u,uint64_t,int64_t,1)
void __kmpc_dispatch_deinit(void*l,int32_t g){ (void)l;(void)g; }
/* a region whose if clause is false runs in the calling thread */
void __kmpc_serialized_parallel(void*l,int32_t g){ (void)l;(void)g; }
void __kmpc_end_serialized_parallel(void*l,int32_t g){ (void)l;(void)g; }
void __kmpc_push_proc_bind(void*l,int32_t g,int32_t b){ (void)l;(void)g;(void)b; }
void __kmpc_flush(void*l){ (void)l; }
int32_t __kmpc_masked(void*l,int32_t g,int32_t f){ (void)f; return __kmpc_master(l,g); }
void __kmpc_end_masked(void*l,int32_t g){ (void)l;(void)g; }
void __kmpc_critical_with_hint(void*l,int32_t g,void*k,uint32_t h){ (void)h; __kmpc_critical(l,g,k); }
void omp_init_lock(void*k){ *(void**)k=0; }
void omp_destroy_lock(void*k){ (void)k; }
void omp_set_lock(void*k){ __kmpc_critical(0,0,k); }
void omp_unset_lock(void*k){ __kmpc_end_critical(0,0,k); }
int omp_get_dynamic(void){ return 0; }
void omp_set_dynamic(int d){ (void)d; }
int omp_get_nested(void){ return 0; }
void omp_set_nested(int d){ (void)d; }
int omp_get_thread_limit(void){ return 16; }
int omp_get_level(void){ return omp_get_num_threads()>1; }
#include <stdlib.h>
/* tasks run where they are created */
typedef struct { void*shared; int(*fn)(int,void*); int part; void*d1,*d2; } Task;
void* __kmpc_omp_task_alloc(void*l,int g,int f,unsigned long n,unsigned long s,int(*fn)(int,void*)){ (void)l;(void)g;(void)f; n=(n+15)&~15ul; Task*t=(Task*)malloc(n+s+1); t->shared=(char*)t+n; t->fn=fn; t->part=0; return t; }
int __kmpc_omp_task(void*l,int g,void*t){ (void)l; ((Task*)t)->fn(g,t); free(t); return 0; }
int __kmpc_omp_taskwait(void*l,int g){ (void)l;(void)g; return 0; }
void __kmpc_taskgroup(void*l,int g){ (void)l;(void)g; }
void __kmpc_end_taskgroup(void*l,int g){ (void)l;(void)g; }
