/* The Java binding against a stand-in for the Java virtual machine. */
#include "vf.h"
#include "hdbscan/hdbscan.hpp"
using namespace clustering;
#include "types.h"
#include "bw_co_roguesystems_Hdbscan.h"
extern "C" __attribute__((weak)) void Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv*,jobject);
#include <stdlib.h>
#ifndef NMIN
#define NMIN 1
#endif
#ifndef VC
#define VC 1
#endif
#define ROWS (VN+1)
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
enum Kind { INTS=1, DBLS, OBJS, CLASS, EXC };
struct JO { int kind,len,pins; void*given; jint i[ROWS]; jdouble d[VC+1]; JO*o[ROWS]; };
static JO pool[4*ROWS+8]; static int used; static JO*pending; static JO cls,exc; static int copies;
static JO*obj(jobject o,int kind){ JO*j=(JO*)o; vf_assert(j!=0,"null-reference"); vf_assert(kind==0||j->kind==kind,"kind-of-object"); return j; }
static void quiet(void){ vf_assert(!pending,"call-while-exception-pending"); }
static JO*make(int kind,int len){ JO*j=&pool[used++]; j->kind=kind; j->len=len; j->pins=0; for(int k=0;k<ROWS;k++) j->o[k]=0; return j; }
static void raise(void){ cls.kind=CLASS; exc.kind=EXC; pending=&exc; }
static int bad(JO*j,jsize s,jsize n){ if(s<0||n<0||s>j->len||n>j->len-s){ raise(); return 1; } return 0; }
extern "C" {
static jsize GetArrayLength_(JNIEnv*,jarray a){ quiet(); return obj(a,0)->len; }
static jobject GetObjectArrayElement_(JNIEnv*,jobjectArray a,jsize i){ quiet(); JO*j=obj(a,OBJS); if(i<0||i>=j->len){ raise(); return 0; } return (jobject)j->o[i]; }
static jintArray NewIntArray_(JNIEnv*,jsize n){ quiet(); vf_assert(n>=0&&n<=ROWS,"size-of-new-array"); return (jintArray)make(INTS,n); }
static void SetIntArrayRegion_(JNIEnv*,jintArray a,jsize s,jsize n,const jint*b){ quiet(); JO*j=obj(a,INTS); if(bad(j,s,n)) return; for(int k=0;k<n;k++) j->i[s+k]=b[k]; }
static void GetIntArrayRegion_(JNIEnv*,jintArray a,jsize s,jsize n,jint*b){ quiet(); JO*j=obj(a,INTS); if(bad(j,s,n)) return; for(int k=0;k<n;k++) b[k]=j->i[s+k]; }
static void GetDoubleArrayRegion_(JNIEnv*,jdoubleArray a,jsize s,jsize n,jdouble*b){ quiet(); JO*j=obj(a,DBLS); if(bad(j,s,n)) return; for(int k=0;k<n;k++) b[k]=j->d[s+k]; }
static void*lend(JO*j,jboolean*c){ vf_assert(!j->pins,"lent-once"); j->pins++; if(c) *c=(jboolean)copies; if(!copies) return j->given=j->kind==INTS?(void*)j->i:(void*)j->d;
  unsigned long n=j->len; if(j->kind==INTS){ jint*p=(jint*)malloc(n*sizeof(jint)+1); for(unsigned long k=0;k<n;k++) p[k]=j->i[k]; return j->given=p; }
  jdouble*p=(jdouble*)malloc(n*sizeof(jdouble)+1); for(unsigned long k=0;k<n;k++) p[k]=j->d[k]; return j->given=p; }
static void back(JO*j,void*p,jint mode){ vf_assert(j->pins==1&&j->given==p,"given-back-what-was-lent"); if(copies&&mode!=JNI_ABORT) for(int k=0;k<j->len;k++){ if(j->kind==INTS) j->i[k]=((jint*)p)[k]; else j->d[k]=((jdouble*)p)[k]; }
  if(mode!=JNI_COMMIT){ j->pins=0; if(copies) free(p); } }
static jdouble*GetDoubleArrayElements_(JNIEnv*,jdoubleArray a,jboolean*c){ quiet(); return (jdouble*)lend(obj(a,DBLS),c); }
static void ReleaseDoubleArrayElements_(JNIEnv*,jdoubleArray a,jdouble*p,jint m){ back(obj(a,DBLS),p,m); }
static jint*GetIntArrayElements_(JNIEnv*,jintArray a,jboolean*c){ quiet(); return (jint*)lend(obj(a,INTS),c); }
static void ReleaseIntArrayElements_(JNIEnv*,jintArray a,jint*p,jint m){ back(obj(a,INTS),p,m); }
static void*GetPrimitiveArrayCritical_(JNIEnv*,jarray a,jboolean*c){ quiet(); return lend(obj(a,0),c); }
static void ReleasePrimitiveArrayCritical_(JNIEnv*,jarray a,void*p,jint m){ back(obj(a,0),p,m); }
static void DeleteLocalRef_(JNIEnv*,jobject){}
static jobject NewLocalRef_(JNIEnv*,jobject o){ return o; }
static jint EnsureLocalCapacity_(JNIEnv*,jint){ return 0; }
static jint PushLocalFrame_(JNIEnv*,jint){ return 0; }
static jobject PopLocalFrame_(JNIEnv*,jobject o){ return o; }
static jboolean ExceptionCheck_(JNIEnv*){ return pending!=0; }
static jthrowable ExceptionOccurred_(JNIEnv*){ return (jthrowable)pending; }
static void ExceptionClear_(JNIEnv*){ pending=0; }
static void ExceptionDescribe_(JNIEnv*){}
static jclass FindClass_(JNIEnv*,const char*n){ quiet(); vf_assert(n[0]=='j'&&n[1]=='a'&&n[2]=='v'&&n[3]=='a'&&n[4]=='/',"class-name"); cls.kind=CLASS; return (jclass)&cls; }
static jint ThrowNew_(JNIEnv*,jclass c,const char*){ quiet(); obj(c,CLASS); raise(); return 0; }
static jboolean IsSameObject_(JNIEnv*,jobject a,jobject b){ return a==b; }
}
static struct JNINativeInterface_ fn; static JNIEnv env; static JO self;
static void machine(){ fn.GetArrayLength=GetArrayLength_; fn.GetObjectArrayElement=GetObjectArrayElement_; fn.NewIntArray=NewIntArray_; fn.SetIntArrayRegion=SetIntArrayRegion_; fn.GetIntArrayRegion=GetIntArrayRegion_; fn.GetDoubleArrayRegion=GetDoubleArrayRegion_;
  fn.GetDoubleArrayElements=GetDoubleArrayElements_; fn.ReleaseDoubleArrayElements=ReleaseDoubleArrayElements_; fn.GetIntArrayElements=GetIntArrayElements_; fn.ReleaseIntArrayElements=ReleaseIntArrayElements_; fn.GetPrimitiveArrayCritical=GetPrimitiveArrayCritical_; fn.ReleasePrimitiveArrayCritical=ReleasePrimitiveArrayCritical_;
  fn.DeleteLocalRef=DeleteLocalRef_; fn.NewLocalRef=NewLocalRef_; fn.EnsureLocalCapacity=EnsureLocalCapacity_; fn.PushLocalFrame=PushLocalFrame_; fn.PopLocalFrame=PopLocalFrame_; fn.ExceptionCheck=ExceptionCheck_; fn.ExceptionOccurred=ExceptionOccurred_; fn.ExceptionClear=ExceptionClear_; fn.ExceptionDescribe=ExceptionDescribe_;
  fn.FindClass=FindClass_; fn.ThrowNew=ThrowNew_; fn.IsSameObject=IsSameObject_; env.functions=&fn; }
static double x[ROWS*VC]; static int n,c,m;
static void labels(jintArray a,hdbscan*s){ vf_assert(!pending,"no-exception"); JO*j=obj(a,INTS); vf_assert(j->len==n,"one-label-per-row"); for(int i=0;i<n;i++) vf_assert(j->i[i]==(jint)s->clusterLabels[i],"label-of-the-core"); }
static JO*rows(){ n=pick(NMIN,VN); c=pick(1,VC); JO*d=make(OBJS,n); for(int i=0;i<n;i++){ JO*r=d->o[i]=make(DBLS,c); for(int k=0;k<c;k++) r->d[k]=x[i*c+k]=(double)VF_POINT(i); } return d; }
static void settled(JO*d){ for(int i=0;i<d->len;i++) if(d->o[i]) vf_assert(!d->o[i]->pins,"rows-given-back"); for(int i=0;i<n*c;i++) vf_assert(d->o[i/c]->d[i%c]==x[i],"rows-unchanged"); }
static void ragged(){ n=pick(0,2); JO*d=make(OBJS,n); int w[2]; for(int i=0;i<n;i++){ w[i]=pick(0,VC+1)-1; if(w[i]>=0){ JO*r=d->o[i]=make(DBLS,w[i]); for(int k=0;k<w[i];k++) r->d[k]=0; } }
  if(n==1){ vf_assume(w[0]<1); } if(n==2) vf_assume(w[0]!=w[1]||w[0]<1);
  jintArray a=Java_bw_co_roguesystems_Hdbscan_runImpl(&env,(jobject)&self,(jobjectArray)d); vf_assert(pending!=0,"malformed-rows-raise-an-exception"); (void)a; pending=0; for(int i=0;i<n;i++) if(d->o[i]) vf_assert(!d->o[i]->pins,"rows-given-back"); vf_reach("malformed"); }
extern "C" void vf_main(void){ LOG_START(); machine();
#ifdef THR
  vf_threads(THR); vf_desc(pick(0,1));
#endif
  copies=pick(0,1); unsigned long base=vf_live();
  vf_assert(Java_bw_co_roguesystems_Hdbscan_cleanHdbscan!=0,"every-native-method-exists"); int lives=pick(1,LIVES);
  for(int l=0;l<lives;l++){ used=0; m=pick(2,VM);
    Java_bw_co_roguesystems_Hdbscan_initHdbscan(&env,(jobject)&self,m); vf_assert(!pending,"no-exception");
    if(RAGGED&&pick(0,1)) ragged();
    else { int runs=pick(1,RUNS); hdbscan*s=hdbscan_init(NULL,(index_t)m);
      for(int r=0;r<runs;r++){ JO*d=rows(); hdbscan_run(s,x,(index_t)n,(index_t)c,1,H_DOUBLE); labels(Java_bw_co_roguesystems_Hdbscan_runImpl(&env,(jobject)&self,(jobjectArray)d),s); settled(d); }
      if(pick(0,1)){ int k=pick(2,VM); hdbscan_rerun(s,(index_t)k); labels(Java_bw_co_roguesystems_Hdbscan_reRunImpl(&env,(jobject)&self,k),s); vf_reach("rerun"); }
      hdbscan_destroy(s); }
    if(l+1<lives) vf_reach("again"); if(pick(0,1)){ Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(&env,(jobject)&self); vf_assert(vf_live()==base,"leak"); vf_reach("cleaned"); } }
  Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(&env,(jobject)&self); vf_assert(vf_live()==base,"leak-at-end"); vf_reach("end"); }
