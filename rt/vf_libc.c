/* C library routines as bitcode for the symbolic executor. */
typedef unsigned long sz;
sz strlen(const char*s){ sz n=0; while(s[n]) n++; return n; }
int strcmp(const char*a,const char*b){ while(*a&&*a==*b){a++;b++;} return (int)(unsigned char)*a-(int)(unsigned char)*b; }
int strncmp(const char*a,const char*b,sz n){ while(n&&*a&&*a==*b){a++;b++;n--;} return n?(int)(unsigned char)*a-(int)(unsigned char)*b:0; }
char* strcpy(char*d,const char*s){ char*r=d; while((*d++=*s++)); return r; }
char* strncpy(char*d,const char*s,sz n){ sz i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char* strcat(char*d,const char*s){ char*r=d; while(*d) d++; while((*d++=*s++)); return r; }
char* strncat(char*d,const char*s,sz n){ char*r=d; while(*d) d++; while(n--&&*s) *d++=*s++; *d=0; return r; }
char* strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* strrchr(const char*s,int c){ char*r=0; for(;;s++){ if(*s==(char)c) r=(char*)s; if(!*s) return r; } }
int memcmp(const void*a,const void*b,sz n){ const unsigned char*x=a,*y=b; for(sz i=0;i<n;i++) if(x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
void* malloc(sz); void free(void*);
char* strdup(const char*s){ sz n=strlen(s)+1; char*d=malloc(n); if(d) strcpy(d,s); return d; }
int isspace(int c){ return c==' '||(c>=9&&c<=13); }
int isdigit(int c){ return c>='0'&&c<='9'; }
int rand(void){ static unsigned x=1; x=x*1103515245u+12345u; return (int)((x>>16)&0x7fff); }
double ldexp(double x,int n){ while(n>0){x*=2;n--;} while(n<0){x/=2;n++;} return x; }
/* insertion sort: the order of elements that compare equal is unspecified by the standard anyway */
void qsort(void*base,sz n,sz w,int(*cmp)(const void*,const void*)){ char*b=base;
  for(sz i=1;i<n;i++) for(sz j=i;j>0&&cmp(b+(j-1)*w,b+j*w)>0;j--) for(sz k=0;k<w;k++){ char t=b[(j-1)*w+k]; b[(j-1)*w+k]=b[j*w+k]; b[j*w+k]=t; } }
typedef long time_t_; time_t_ time(time_t_*p){ if(p) *p=1600000000; return 1600000000; }
long clock(void){ return 0; }
/* an open file is a live heap block: a stream used or closed after closing, or never closed, is found like any other block */
void* malloc(sz); void free(void*);
void* fopen(const char*p,const char*m){ (void)p;(void)m; char*f=malloc(8); if(f) for(int i=0;i<8;i++) f[i]=0; return f; }
int fclose(void*f){ *(volatile char*)f=1; free(f); return 0; }
static char vf_tm[64];
void* localtime(const time_t_*t){ (void)t; return vf_tm; }
void* gmtime(const time_t_*t){ (void)t; return vf_tm; }
sz strftime(char*d,sz m,const char*f,const void*t){ static const char s[]="[2026-01-01 00:00:00]"; (void)f;(void)t; if(m<sizeof s) return 0; strcpy(d,s); return sizeof s-1; }
extern double floor(double),ceil(double),fabs(double),sqrt(double);
double fmax(double a,double b){ return a!=a?b:b!=b?a:a>b?a:b; }
double fmin(double a,double b){ return a!=a?b:b!=b?a:a<b?a:b; }
float fmaxf(float a,float b){ return a!=a?b:b!=b?a:a>b?a:b; }
float fminf(float a,float b){ return a!=a?b:b!=b?a:a<b?a:b; }
float floorf(float x){ return (float)floor(x); }
float ceilf(float x){ return (float)ceil(x); }
double trunc(double x){ return x<0?ceil(x):floor(x); }
float truncf(float x){ return (float)trunc(x); }
double hypot(double a,double b){ return sqrt(a*a+b*b); }
double copysign(double a,double b){ union{double d;unsigned long u;} x,y; x.d=a; y.d=b; x.u=(x.u&~(1ul<<63))|(y.u&(1ul<<63)); return x.d; }
float copysignf(float a,float b){ union{float d;unsigned u;} x,y; x.d=a; y.d=b; x.u=(x.u&~(1u<<31))|(y.u&(1u<<31)); return x.d; }
long llabs(long x){ return x<0?-x:x; }
void* memchr(const void*s,int c,sz n){ const unsigned char*p=s; for(sz i=0;i<n;i++) if(p[i]==(unsigned char)c) return (void*)(p+i); return 0; }
sz strnlen(const char*s,sz m){ sz n=0; while(n<m&&s[n]) n++; return n; }
char* strstr(const char*h,const char*n){ for(;;h++){ sz i=0; while(n[i]&&h[i]==n[i]) i++; if(!n[i]) return (char*)h; if(!*h) return 0; } }
char* stpcpy(char*d,const char*s){ while((*d=*s)){ d++; s++; } return d; }
int tolower(int c){ return c>='A'&&c<='Z'?c+32:c; }
int toupper(int c){ return c>='a'&&c<='z'?c-32:c; }
int isalpha(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
int isalnum(int c){ return isalpha(c)||isdigit(c); }
void* calloc(sz,sz); void* realloc(void*,sz);
void* reallocarray(void*p,sz n,sz w){ return w&&n>~0ul/w?0:realloc(p,n*w); }
void* bsearch(const void*k,const void*base,sz n,sz w,int(*cmp)(const void*,const void*)){ sz l=0,r=n; while(l<r){ sz m=l+(r-l)/2; const char*p=(const char*)base+m*w; int c=cmp(k,p); if(!c) return (void*)p; if(c<0) r=m; else l=m+1; } return 0; }
char* getenv(const char*n){ (void)n; return 0; }
/* LLVM's bit intrinsics (engine/vfse.cpp, aliasOf) */
#define BITS(w,T) T vf_ctpop##w(T x){ int n=0; for(int i=0;i<w;i++) n+=(int)(x>>i&1); return (T)n; } \
  T vf_ctlz##w(T x,_Bool z){ T n=0; (void)z; for(int i=w-1;i>=0&&!(x>>i&1);i--) n++; return n; } \
  T vf_cttz##w(T x,_Bool z){ T n=0; (void)z; for(int i=0;i<w&&!(x>>i&1);i++) n++; return n; } \
  T vf_usubs##w(T a,T b){ return a>b?a-b:0; } T vf_uadds##w(T a,T b){ T c=a+b; return c<a?(T)~(T)0:c; } \
  T vf_fshl##w(T a,T b,T c){ c&=w-1; return c?(T)(a<<c|b>>(w-c)):a; } T vf_fshr##w(T a,T b,T c){ c&=w-1; return c?(T)(a<<(w-c)|b>>c):b; }
BITS(32,unsigned) BITS(64,unsigned long)
unsigned vf_bswap32(unsigned x){ return x<<24|(x&0xff00)<<8|(x>>8&0xff00)|x>>24; }
unsigned long vf_bswap64(unsigned long x){ return (unsigned long)vf_bswap32((unsigned)x)<<32|vf_bswap32((unsigned)(x>>32)); }
int fputc(int,void*);
int putc(int c,void*f){ return fputc(c,f); }
int posix_memalign(void**o,sz a,sz n){ void*p=malloc(n); (void)a; if(!p) return 12; *o=p; return 0; }
void* aligned_alloc(sz a,sz n){ (void)a; return malloc(n); }
static int vf_errno; int* __errno_location(void){ return &vf_errno; }
char* strerror(int e){ static char s[]="error"; (void)e; return s; }
double rint(double x){ double f=floor(x),d=x-f; return d<0.5?f:d>0.5?f+1:fabs(f/2-floor(f/2))>0?f+1:f; }
double nearbyint(double x){ return rint(x); }
extern double round(double);
long lround(double x){ return (long)round(x); }
long lrint(double x){ return (long)rint(x); }
double fdim(double a,double b){ return a>b?a-b:0; }
