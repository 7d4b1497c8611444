/* Table key types and comparisons that go with the configured label, index and distance types. */
#define BY_SIZE(T,a,b,c) (sizeof(T)==sizeof(int)?(a):sizeof(T)==sizeof(short)?(b):(c))
#define LABEL_H BY_SIZE(label_t,H_INT,H_SHORT,H_LONG)
#define LABEL_CMP BY_SIZE(label_t,int_compare,short_compare,long_compare)
#define INDEX_CMP BY_SIZE(index_t,int_compare,short_compare,long_compare)
#define DIST_CMP (sizeof(distance_t)==sizeof(float)?float_compare:double_compare)
#ifdef DEBUG
#include <float.h>
#include "hdbscan/logger.h"
#define LOG_START() logger_init()
#define LOG_CLOSE() ((void)0)
static unsigned long live_(void){ logger_close(); unsigned long n=vf_live(); logger_init(); return n; } /* the log is open all along */
#define vf_live() live_()
#else
#define LOG_START() ((void)0)
#define LOG_CLOSE() logger_close()
#endif
/* Any value, and any value in [0,2), of the configured distance type. */
#define ANY_DIST() (sizeof(distance_t)==sizeof(float)?(distance_t)vf_float():(distance_t)vf_double())
#define LOW_DIST() (sizeof(distance_t)==sizeof(float)?(distance_t)vf_pfloat():(distance_t)vf_pdouble())
#define DIST_EPS (sizeof(distance_t)==sizeof(float)?1e-4:1e-9)
