/* Native replay runtime: reads the solver's values from a file and runs the harness against the real code. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include "vf.h"
static unsigned long *vals; static size_t nvals, pos;
static unsigned long next_(void){ return pos<nvals?vals[pos++]:(pos++,0); }
unsigned long vf_in(unsigned bits){ unsigned long v=next_(); return bits>=64?v:v&((1ul<<bits)-1); }
long vf_range(long lo,long hi){ unsigned long v=next_(); if(lo>hi) _exit(77); long x;
  if(lo>=0) x=(long)v; else { int w=1; while(w<64&&!(lo>=-(1l<<(w-1))&&hi<=(1l<<(w-1))-1)) w++; if(w==1) w=2; if(lo==hi) w=64; x=w<64?((long)(v<<(64-w)))>>(64-w):(long)v; }
  if(x<lo||x>hi){ fprintf(stderr,"VF-RANGE %ld not in [%ld,%ld]\n",x,lo,hi); _exit(77); } return x; }
void vf_assume(int c){ if(!c) _exit(77); }
void vf_assert(int c,const char*id){ if(!c){ fflush(stdout); fprintf(stderr,"VF-ASSERT-FAIL %s\n",id); _exit(88); } }
static FILE*outf;
void vf_reach(const char*id){ if(outf){ fprintf(outf,"R %s\n",id); fflush(outf);} }
void vf_out(unsigned long v){ if(outf){ fprintf(outf,"O %lu\n",v); fflush(outf);} }
unsigned long vf_concretize(unsigned long v){ return v; }
void*__asan_region_is_poisoned(void*,unsigned long) __attribute__((weak));
int vf_valid(const void*p,unsigned long n){ return !n||!__asan_region_is_poisoned||!__asan_region_is_poisoned((void*)p,n); }
void vf_threads(int n){ char b[16]; snprintf(b,sizeof b,"%d",n); setenv("MINIKMPC_THREADS",b,1); }
void vf_desc(int on){ setenv("MINIKMPC_DESC",on?"1":"0",1); }
/* allocation accounting through --wrap */
static long live, allocNo, failAt=-1; static int active;
void*__real_malloc(size_t); void*__real_calloc(size_t,size_t); void*__real_realloc(void*,size_t); void __real_free(void*);
static int failNow(void){ if(!active) return 0; long k=__sync_fetch_and_add(&allocNo,1); return failAt>=0&&k==failAt; }
void*__wrap_malloc(size_t n){ if(failNow()) return 0; void*p=__real_malloc(n); if(p&&active) __sync_fetch_and_add(&live,1); return p; }
void*__wrap_calloc(size_t a,size_t b){ if(failNow()) return 0; void*p=__real_calloc(a,b); if(p&&active) __sync_fetch_and_add(&live,1); return p; }
void*__wrap_realloc(void*q,size_t n){ if(q&&n==0){ __real_free(q); if(active) __sync_fetch_and_sub(&live,1); return 0; } if(failNow()) return 0; void*p=__real_realloc(q,n); if(!q&&p&&active) __sync_fetch_and_add(&live,1); return p; }
void __wrap_free(void*p){ if(p&&active) __sync_fetch_and_sub(&live,1); __real_free(p); }
FILE*__real_fopen(const char*,const char*); int __real_fclose(FILE*);
#define NEW(f) void*__real_##f(size_t); void*__wrap_##f(size_t n){ void*p=__real_##f(n); if(active) __sync_fetch_and_add(&live,1); return p; }
#define DEL(f) void __real_##f(void*); void __wrap_##f(void*p){ if(p&&active) __sync_fetch_and_sub(&live,1); __real_##f(p); }
#define DELN(f) void __real_##f(void*,size_t); void __wrap_##f(void*p,size_t n){ if(p&&active) __sync_fetch_and_sub(&live,1); __real_##f(p,n); }
#ifdef VF_CXX
NEW(_Znwm) NEW(_Znam) DEL(_ZdlPv) DEL(_ZdaPv) DELN(_ZdlPvm) DELN(_ZdaPvm)
#endif
FILE*__wrap_fopen(const char*p,const char*m){ if(active&&failNow()) return 0; FILE*f=__real_fopen(p,m); if(f&&active) __sync_fetch_and_add(&live,1); return f; }
int __wrap_fclose(FILE*f){ if(active) __sync_fetch_and_sub(&live,1); return __real_fclose(f); }
unsigned long vf_live(void){ return (unsigned long)live; }
void vf_fail_at(long k){ failAt=k<0?-1:allocNo+k; }
/* virtual array filled on first touch */
static char*idBase; static unsigned long idBytes,idElem;
static void onSegv(int s,siginfo_t*si,void*u){ (void)s;(void)u; char*a=(char*)si->si_addr; if(idBase&&a>=idBase&&a<idBase+idBytes){ char*pg=(char*)((unsigned long)a&~4095ul); mprotect(pg,4096,PROT_READ|PROT_WRITE); for(unsigned long o=0;o<4096;o+=idElem){ unsigned long ix=(unsigned long)(pg+o-idBase)/idElem; if(idElem==8){ double d=(double)ix; memcpy(pg+o,&d,8);} else { float f=(float)ix; memcpy(pg+o,&f,4);} } mprotect(pg,4096,PROT_READ); return; }
  static const char m[]="VF-SEGV\n"; if(write(2,m,sizeof m-1)){} _exit(89); }
void* vf_ident(unsigned long bytes,unsigned long elem){ idBase=mmap(0,bytes+4096,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); idBytes=bytes; idElem=elem; struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onSegv; sa.sa_flags=SA_SIGINFO; sigaction(SIGSEGV,&sa,0); return idBase; }
static int runOne(const char*f){ FILE*in=fopen(f,"r"); if(!in) return 3; size_t cap=64; vals=__real_malloc(cap*sizeof*vals); nvals=0; unsigned long v; while(fscanf(in,"%lu",&v)==1){ if(nvals==cap){ cap*=2; vals=__real_realloc(vals,cap*sizeof*vals);} vals[nvals++]=v; } fclose(in);
  char b[4096]; snprintf(b,sizeof b,"%s.out",f); outf=fopen(b,"w"); active=1; vf_main(); active=0; if(outf) fclose(outf); return 0; }
int main(int argc,char**argv){ if(argc==2) return runOne(argv[1]);
  for(int i=1;i<argc;i++){ fflush(0); pid_t p=fork(); if(p==0){ int n=open("/dev/null",O_WRONLY); dup2(n,1); alarm(60); _exit(runOne(argv[i])); } int st=0; waitpid(p,&st,0); printf("RESULT %s %d\n",argv[i],WIFEXITED(st)?WEXITSTATUS(st):128+WTERMSIG(st)); fflush(stdout);} return 0; }
