/* Interface between the harnesses and the symbolic executor (symbolic build) or the replay runtime (native build). */
#ifndef VF_H
#define VF_H
#ifdef __cplusplus
extern "C" {
#endif
unsigned long vf_in(unsigned bits);                 /* unconstrained value of the given width */
long vf_range(long lo, long hi);                    /* any value in [lo,hi] */
void vf_assume(int c);
void vf_assert(int c, const char* id);
void vf_reach(const char* id);
unsigned long vf_concretize(unsigned long v);       /* enumerate the feasible values (identity natively) */
unsigned long vf_live(void);                        /* live heap blocks */
void vf_out(unsigned long v);                       /* observed output, compared with the native run */
void* vf_ident(unsigned long bytes, unsigned long elem); /* virtual array: element i holds i */
void vf_threads(int n);                             /* logical OpenMP threads */
void vf_desc(int on);                               /* run the threads in descending order */
void vf_fail_at(long k);                            /* the k-th allocation from now on returns NULL (-1: none) */
int vf_valid(const void* p, unsigned long n);       /* [p,p+n) lies in a live object (natively always 1) */
static inline double vf_double(void){ union { unsigned long u; double d; } x; x.u = vf_in(64); return x.d; }
static inline double vf_pdouble(void){ union { unsigned long u; double d; } x; x.u = vf_in(62); return x.d; } /* any double in [0,2) */
static inline float vf_float(void){ union { unsigned int u; float d; } x; x.u = (unsigned int)vf_in(32); return x.d; }
static inline float vf_pfloat(void){ union { unsigned int u; float d; } x; x.u = (unsigned int)vf_in(30); return x.d; } /* any float in [0,2) */
static inline unsigned long vf_dbits(double d){ union { unsigned long u; double d; } x; x.d = d; return x.u; }
void vf_main(void);
#ifdef __cplusplus
}
#endif
/* a coordinate of point i: 0..VK, for points from FREE on one that is known (three groups with ties) */
#ifdef FREE
#define VF_KNOWN(i) ((i)%3*10+(i)*(i)%4)
#define VF_POINT(i) ((int)(i)<FREE?vf_range(0,VK):(long)VF_KNOWN((int)(i)))
#else
#define VF_POINT(i) vf_range(0,VK)
#endif
#endif
