/* The Python binding against a stand-in for the Python interpreter and numpy. */
#include "vf.h"
#include "hdbscan/hdbscan.h"
#include "types.h"
#include "../rt/py/structmember.h"
#include "../rt/py/fakepy.c"
PyObject*PyInit_PyHdbscan(void);
#ifndef VC
#define VC 1
#endif
#ifndef NMIN
#define NMIN 1
#endif
#ifndef KINDS
#define KINDS 1
#endif
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
/* ---- using the module */
static PyObject*tuple(int n,PyObject*a,PyObject*b){ PyObject*t=PyTuple_New(n); if(n>0) PyTuple_SetItem(t,0,a); if(n>1) PyTuple_SetItem(t,1,b); return t; }
static PyObject*create(PyObject*args){ PyObject*o=exported->tp_new(exported,args,NULL); vf_assert(o!=NULL,"object-made"); int r=exported->tp_init(o,args,NULL); vf_assert((r<0)==(err!=NULL),"error-with-an-exception"); Py_DECREF(args); if(r<0){ Py_DECREF(o); return NULL; } return o; }
static int same_name(const char*a,const char*b){ while(*a&&*a==*b){ a++; b++; } return *a==*b; }
static PyObject*call(PyObject*o,const char*name,PyObject*args){ PyMethodDef*m=exported->tp_methods; while(m->ml_name&&!same_name(m->ml_name,name)) m++; vf_assert(m->ml_name!=NULL,"method-exists"); PyObject*r=m->ml_flags&METH_KEYWORDS?((PyCFunctionWithKeywords)m->ml_meth)(o,args,NULL):m->ml_meth(o,args); vf_assert((r==NULL)==(err!=NULL),"error-with-an-exception"); Py_DECREF(args); return r; }
static PyObject*attribute(PyObject*o,const char*name){ for(PyMemberDef*m=exported->tp_members;m&&m->name;m++) if(same_name(m->name,name)){ char*p=(char*)o+m->offset; switch(m->type){ case T_OBJECT: case T_OBJECT_EX:{ PyObject*v=*(PyObject**)p; if(!v){ if(m->type==T_OBJECT) return Py_NewRef(Py_None); return NULL; } return Py_NewRef(v); } case T_INT: return num(*(int*)p); case T_UINT: return num(*(unsigned*)p); case T_LONG: return num(*(long*)p); case T_ULONG: return num((long)*(unsigned long*)p); case T_SHORT: return num(*(short*)p); case T_USHORT: return num(*(unsigned short*)p); default: abort(); } }
  for(PyGetSetDef*g=exported->tp_getset;g&&g->name;g++) if(same_name(g->name,name)) return g->get(o,g->closure); vf_assert(0,"attribute-exists"); return NULL; }
/* ---- data sets */
static void*buffers[16]; static int nbuf;
static PyObject*dataset(double*x,int*rows,int*cols,int*kind){ static const int np[]={NPY_DOUBLE,NPY_FLOAT,NPY_INT,NPY_LONG,NPY_SHORT}; static const index_t hd[]={H_DOUBLE,H_FLOAT,H_INT,H_LONG,H_SHORT};
  int n=pick(NMIN,VN),c=pick(1,VC),k=pick(0,KINDS-1),line=c==1?pick(0,1):0,loose=LOOSE?pick(0,n>1&&c>1?2:1):0,w=fakepy_width(np[k]); npy_intp d[2]={n,c};
  char*p=calloc((size_t)(n*c*2),(size_t)w); buffers[nbuf++]=p; PyArrayObject*a=(PyArrayObject*)PyArray_SimpleNewFromData(line?1:2,d,np[k],p); if(c>1&&n>1) a->flags&=~NPY_ARRAY_F_CONTIGUOUS;
  if(loose==1){ a->flags&=~(NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_F_CONTIGUOUS); a->step[0]=2*w; if(!line) a->step[1]=2*n*w; }
  if(loose==2){ a->flags=(a->flags&~NPY_ARRAY_C_CONTIGUOUS)|NPY_ARRAY_F_CONTIGUOUS; a->step[0]=w; a->step[1]=n*w; }
  for(int i=0;i<n;i++) for(int j=0;j<c;j++){ long v=VF_POINT(i); x[i*c+j]=(double)v; char*q=p+i*a->step[0]+(line?0:j*a->step[1]); switch(k){ case 0: *(double*)q=(double)v; break; case 1: *(float*)q=(float)v; break; case 2: *(int*)q=(int)v; break; case 3: *(long*)q=v; break; default: *(short*)q=(short)v; } }
  *rows=n; *cols=c; *kind=(int)hd[k]; return (PyObject*)a; }
/* ---- what is expected */
typedef struct { PyObject*o; hdbscan*s; } Pair;
typedef struct { PyObject*o; label_t l[VN]; int n; } Held;     /* a list of labels the user keeps */
typedef struct { PyObject*o; label_t l[VN]; int b,e; } HeldMap;
typedef struct { PyObject*o; int n,levels; long level[VN+1]; label_t l[VN+1][VN]; } HeldLevels;
static Held held; static HeldMap heldMap; static HeldLevels heldLevels; static int full;
static long element(PyArrayObject*a,int i){ char*p=(char*)a->data+i*a->step[0]; switch(a->type){ case NPY_SHORT: return *(short*)p; case NPY_USHORT: return *(unsigned short*)p; case NPY_INT: return *(int*)p; case NPY_UINT: return *(unsigned*)p; case NPY_LONG: case NPY_ULONG: case NPY_LONGLONG: case NPY_ULONGLONG: return *(long*)p; default: vf_assert(0,"array-of-integers"); return 0; } }
static void checkList(PyObject*l,label_t*e,int n){ vf_assert(l!=NULL&&PyList_Check(l)&&PyList_Size(l)==n,"one-label-per-row"); for(int i=0;i<n;i++) vf_assert(val(PyList_GetItem(l,i))==(long)e[i],"label-of-the-core"); }
static void checkMap(PyObject*d,label_t*l,int b,int e){ vf_assert(d!=NULL&&PyDict_Check(d),"map"); long keys=0; for(int i=b;i<e;i++){ int first=1; for(int j=b;j<i;j++) if(l[j]==l[i]) first=0; if(!first) continue; keys++; PyObject*k=num((long)l[i]),*v=PyDict_GetItem(d,k); Py_DECREF(k); vf_assert(v!=NULL,"cluster-present"); PyArrayObject*a=fakepy_array(v); int m=0;
    for(int j=b;j<e;j++) if(l[j]==l[i]){ vf_assert(fakepy_size(a)>m&&element(a,m)==j,"member"); m++; } vf_assert(fakepy_size(a)==m,"members"); } vf_assert(PyDict_Size(d)==keys,"clusters"); }
static void checkLevels(PyObject*d,HeldLevels*h){ vf_assert(d!=NULL&&PyDict_Check(d)&&PyDict_Size(d)==h->levels,"levels"); for(int q=0;q<h->levels;q++){ PyObject*k=num(h->level[q]),*v=PyDict_GetItem(d,k); Py_DECREF(k); vf_assert(v!=NULL,"level-present"); PyArrayObject*a=fakepy_array(v); vf_assert(fakepy_size(a)==h->n,"level-length"); for(int i=0;i<h->n;i++) vf_assert(element(a,i)==(long)h->l[q][i],"level-label"); } }
static void levelsOf(hdbscan*s,HeldLevels*h){ h->n=(int)s->numPoints; h->levels=(int)hashtable_size(s->hierarchy); int q=0; for(long k=0;k<h->levels;k++){ hierarchy_entry*e=NULL; hashtable_lookup(s->hierarchy,&k,&e); vf_assert(e!=NULL,"oracle-level"); h->level[q]=k; for(int i=0;i<h->n;i++) h->l[q][i]=e->labels[i]; q++; } }
static void checkLabels(Pair*p){ PyObject*l=attribute(p->o,"labels"); if(!p->s->clusterLabels){ vf_assert(l==NULL||l==Py_None,"no-labels-yet"); Py_XDECREF(l); return; } checkList(l,p->s->clusterLabels,(int)p->s->numPoints);
  if(!held.o&&full){ held.o=Py_NewRef(l); held.n=(int)p->s->numPoints; for(int i=0;i<held.n;i++) held.l[i]=p->s->clusterLabels[i]; } Py_DECREF(l); }
static void number(PyObject*r){ vf_assert(r!=NULL,"call-succeeds"); Py_DECREF(r); }
static void run(Pair*p){ double x[VN*VC]; int n,c,k; PyObject*a=dataset(x,&n,&c,&k); number(call(p->o,"run",tuple(1,Py_NewRef(a),NULL))); vf_assert(Py_REFCNT(a)==1,"data-set-given-back"); for(int i=0;i<n;i++) for(int j=0;j<c;j++){ char*q=(char*)((PyArrayObject*)a)->data+i*((PyArrayObject*)a)->step[0]+(((PyArrayObject*)a)->nd>1?j*((PyArrayObject*)a)->step[1]:0); vf_assert((k==H_DOUBLE?*(double*)q:k==H_FLOAT?*(float*)q:k==H_INT?*(int*)q:k==H_LONG?*(long*)q:*(short*)q)==x[i*c+j],"data-set-unchanged"); }
  Py_DECREF(a); for(int i=0;i<n*c;i++) x[i]=x[i]; hdbscan_run(p->s,x,(index_t)n,(index_t)c,1,H_DOUBLE);
  PyObject*r=attribute(p->o,"rows"),*q=attribute(p->o,"cols"); vf_assert(val(r)==n&&val(q)==c,"shape"); Py_DECREF(r); Py_DECREF(q); vf_reach("run"); }
static void rerun(Pair*p){ int m=pick(2,VM); number(call(p->o,"rerun",tuple(1,num(m),NULL))); hdbscan_rerun(p->s,(index_t)m); PyObject*r=attribute(p->o,"minPoints"); vf_assert(val(r)==m,"size"); Py_DECREF(r); vf_reach("rerun"); }
static void map(Pair*p){ int n=(int)p->s->numPoints,b=pick(0,n),e=pick(b,n); PyObject*d=call(p->o,"getClusterMap",tuple(2,num(b),num(e))); checkMap(d,p->s->clusterLabels,b,e); PyObject*m=attribute(p->o,"clusterMap"); vf_assert(m==d,"map-kept"); Py_DECREF(m);
  if(!heldMap.o){ heldMap.o=Py_NewRef(d); heldMap.b=b; heldMap.e=e; for(int i=0;i<n;i++) heldMap.l[i]=p->s->clusterLabels[i]; } Py_DECREF(d); vf_reach("map"); }
static void levels(Pair*p){ HeldLevels h; levelsOf(p->s,&h); number(call(p->o,"getHierarchies",tuple(0,NULL,NULL))); PyObject*d=attribute(p->o,"hierarchy"); checkLevels(d,&h); if(!heldLevels.o){ heldLevels=h; heldLevels.o=Py_NewRef(d); } Py_DECREF(d); vf_reach("levels"); }
static void refused(PyObject*r){ vf_assert(r==NULL&&err!=NULL,"misuse-raises-an-exception"); err=NULL; vf_reach("refused"); }
static PyObject*odd(int k){ static double z[8]; npy_intp d[3]={2,2,2}; switch(k){ case 0: return PyArray_SimpleNewFromData(2,d,NPY_BYTE,z); case 1: return PyArray_SimpleNewFromData(3,d,NPY_DOUBLE,z); case 2: return PyArray_SimpleNewFromData(0,d,NPY_DOUBLE,z); case 3: d[0]=0; return PyArray_SimpleNewFromData(2,d,NPY_DOUBLE,z); case 4: return num(3); default: return PyList_New(0); } }
static void misuse(Pair*p){ int done=p->s->clusterLabels!=NULL,n=(int)p->s->numPoints;
  switch(pick(0,7)){ case 0: refused(call(p->o,"run",tuple(1,odd(pick(0,5)),NULL))); break; case 1: refused(call(p->o,"run",tuple(0,NULL,NULL))); break; case 2: refused(call(p->o,"rerun",tuple(1,num(pick(-1,1)),NULL))); break; case 3: refused(call(p->o,"rerun",tuple(1,PyList_New(0),NULL))); break;
    case 4: refused(call(p->o,"getClusterMap",tuple(1,num(0),NULL))); break;
    case 5:{ int b=pick(-1,n+1),e=pick(-1,n+1); vf_assume(!done||b<0||e>n||b>e); refused(call(p->o,"getClusterMap",tuple(2,num(b),num(e)))); break; }
    case 6: if(!done) refused(call(p->o,"getHierarchies",tuple(0,NULL,NULL))); break; default: if(!done) refused(call(p->o,"rerun",tuple(1,num(2),NULL))); } }
static void again(Pair*p){ int m=pick(1,VM); PyObject*t=tuple(1,num(m),NULL); int r=exported->tp_init(p->o,t,NULL); Py_DECREF(t); vf_assert((r<0)==(err!=NULL)&&(r<0)==(m<2),"error-with-an-exception"); err=NULL; if(m>=2){ hdbscan_destroy(p->s); p->s=hdbscan_init(NULL,(index_t)m); run(p); vf_reach("initialised-again"); } }
void vf_main(void){ LOG_START();
  PyInit_PyHdbscan(); vf_assert(exported!=NULL,"type-exported"); unsigned long base=vf_live(); Pair p[2]; int objects=pick(1,OBJECTS); full=1;
  if(MISUSE){ int b=pick(0,2); PyObject*o=create(b==2?tuple(0,NULL,NULL):tuple(1,b?PyList_New(0):num(pick(-1,1)),NULL)); vf_assert(o==NULL,"misuse-raises-an-exception"); err=NULL; PyObject*raw=exported->tp_new(exported,NULL,NULL); refused(call(raw,"run",tuple(1,odd(0),NULL))); refused(call(raw,"getHierarchies",tuple(0,NULL,NULL))); Py_DECREF(raw); }
  for(int i=0;i<objects;i++){ int m=pick(2,VM); p[i].o=create(tuple(1,num(m),NULL)); vf_assert(p[i].o!=NULL,"created"); p[i].s=hdbscan_init(NULL,(index_t)m); }
  if(!MISUSE) for(int i=0;i<objects;i++) run(p+i);
  for(int t=0;t<STEPS;t++){ Pair*q=p+pick(0,objects-1); int done=q->s->clusterLabels!=NULL; switch(pick(MISUSE?-2:0,3)){ case -2: misuse(q); break; case -1: again(q); break; case 0: run(q); break; case 1: if(done) rerun(q); break; case 2: if(done) map(q); break; default: if(done) levels(q); }
    vf_assert(err==NULL,"no-exception-left"); for(int i=0;i<objects;i++) checkLabels(p+i); }
  for(int i=0;i<objects;i++){ checkLabels(p+i); Py_DECREF(p[i].o); hdbscan_destroy(p[i].s); }
  if(held.o){ checkList(held.o,held.l,held.n); Py_DECREF(held.o); } if(heldMap.o){ checkMap(heldMap.o,heldMap.l,heldMap.b,heldMap.e); Py_DECREF(heldMap.o); } if(heldLevels.o){ checkLevels(heldLevels.o,&heldLevels); Py_DECREF(heldLevels.o); }
  while(nbuf) free(buffers[--nbuf]); vf_assert(vf_live()==base,"leak"); vf_reach("end"); }
