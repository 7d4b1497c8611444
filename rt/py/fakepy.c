/* Objects of the stand-in for Python: every object and every block it owns is a heap block, released when its count reaches 0. */
#include "Python.h"
#include "numpy/arrayobject.h"
typedef struct { PyObject ob_base; long n,cap; PyObject**key,**val; } Seq;
typedef struct { PyObject ob_base; long v; } Num;
static void freeNum(PyObject*o){ free(o); }
static void freeSeq(PyObject*o){ Seq*s=(Seq*)o; for(long i=0;i<s->n;i++){ if(s->key) Py_XDECREF(s->key[i]); Py_XDECREF(s->val[i]); } free(s->key); free(s->val); free(s); }
static void freeArr(PyObject*o){ PyArrayObject*a=(PyArrayObject*)o; if(a->owns) free(a->data); Py_XDECREF(a->base); free(a); }
static void freeNone(PyObject*o){ (void)o; vf_assert(0,"release-of-a-constant"); }
#define TYPE(n,f) PyTypeObject n={ PyVarObject_HEAD_INIT(NULL,0) .tp_name=#n,.tp_dealloc=f }
TYPE(PyLong_Type,freeNum); TYPE(PyList_Type,freeSeq); TYPE(PyTuple_Type,freeSeq); TYPE(PyDict_Type,freeSeq); TYPE(PyArray_Type,freeArr); TYPE(fakepy_const,freeNone);
PyObject fakepy_none={1000,&fakepy_const};
static PyObject exc[10]={{1000,&fakepy_const},{1000,&fakepy_const},{1000,&fakepy_const},{1000,&fakepy_const},{1000,&fakepy_const},{1000,&fakepy_const},{1000,&fakepy_const},{1000,&fakepy_const},{1000,&fakepy_const},{1000,&fakepy_const}};
PyObject*PyExc_ValueError=exc,*PyExc_TypeError=exc+1,*PyExc_RuntimeError=exc+2,*PyExc_IndexError=exc+3,*PyExc_MemoryError=exc+4,*PyExc_OverflowError=exc+5,*PyExc_AttributeError=exc+6,*PyExc_SystemError=exc+7,*PyExc_Exception=exc+8,*PyExc_KeyError=exc+9;
static PyObject*err;
void PyErr_SetString(PyObject*e,const char*m){ (void)m; err=e; }
PyObject*PyErr_Format(PyObject*e,const char*m,...){ (void)m; err=e; return NULL; }
void PyErr_SetNone(PyObject*e){ err=e; }
PyObject*PyErr_NoMemory(void){ err=PyExc_MemoryError; return NULL; }
PyObject*PyErr_Occurred(void){ return err; }
void PyErr_Clear(void){ err=NULL; }
void fakepy_alive(PyObject*o){ vf_assert(o!=NULL,"null-reference"); vf_assert(o->ob_refcnt>0,"reference-to-a-released-object"); }
void _Py_Dealloc(PyObject*o){ o->ob_type->tp_dealloc(o); }
static PyObject*object(PyTypeObject*t,size_t n){ PyObject*o=calloc(1,n); o->ob_refcnt=1; o->ob_type=t; return o; }
static PyObject*num(long v){ Num*o=(Num*)object(&PyLong_Type,sizeof(Num)); o->v=v; return (PyObject*)o; }
static long val(PyObject*o){ fakepy_alive(o); vf_assert(PyLong_Check(o),"an-integer"); return ((Num*)o)->v; }
PyObject*PyLong_FromLong(long v){ return num(v); }
PyObject*PyLong_FromLongLong(long long v){ return num(v); }
PyObject*PyLong_FromUnsignedLong(unsigned long v){ return num(v); }
PyObject*PyLong_FromUnsignedLongLong(unsigned long long v){ return num(v); }
PyObject*PyLong_FromSsize_t(Py_ssize_t v){ return num(v); }
PyObject*PyLong_FromSize_t(size_t v){ return num(v); }
long PyLong_AsLong(PyObject*o){ fakepy_alive(o); if(!PyLong_Check(o)){ err=PyExc_TypeError; return -1; } long v=((Num*)o)->v; if(v<LONG_MIN||v>LONG_MAX){ err=PyExc_OverflowError; return -1; } return (long)v; }
static Seq*seq(PyObject*o,PyTypeObject*t){ fakepy_alive(o); vf_assert(o->ob_type==t,"kind-of-object"); return (Seq*)o; }
static void room(Seq*s,int keys){ if(s->n<s->cap) return; s->cap=s->cap?s->cap*2:4; s->val=realloc(s->val,s->cap*sizeof(PyObject*)); if(keys) s->key=realloc(s->key,s->cap*sizeof(PyObject*)); }
static PyObject*sized(PyTypeObject*t,Py_ssize_t n){ Seq*s=(Seq*)object(t,sizeof(Seq)); for(long i=0;i<n;i++){ room(s,0); s->val[s->n++]=NULL; } return (PyObject*)s; }
PyObject*PyList_New(Py_ssize_t n){ return sized(&PyList_Type,n); }
PyObject*PyTuple_New(Py_ssize_t n){ return sized(&PyTuple_Type,n); }
int PyList_Append(PyObject*l,PyObject*v){ Seq*s=seq(l,&PyList_Type); Py_INCREF(v); room(s,0); s->val[s->n++]=v; return 0; }
static int put(Seq*s,Py_ssize_t i,PyObject*v){ if(i<0||i>=s->n){ Py_XDECREF(v); err=PyExc_IndexError; return -1; } Py_XDECREF(s->val[i]); s->val[i]=v; return 0; }
int PyList_SetItem(PyObject*l,Py_ssize_t i,PyObject*v){ return put(seq(l,&PyList_Type),i,v); }
int PyTuple_SetItem(PyObject*l,Py_ssize_t i,PyObject*v){ return put(seq(l,&PyTuple_Type),i,v); }
static PyObject*at(Seq*s,Py_ssize_t i){ if(i<0||i>=s->n){ err=PyExc_IndexError; return NULL; } return s->val[i]; }
PyObject*PyList_GetItem(PyObject*l,Py_ssize_t i){ return at(seq(l,&PyList_Type),i); }
PyObject*PyTuple_GetItem(PyObject*l,Py_ssize_t i){ return at(seq(l,&PyTuple_Type),i); }
Py_ssize_t PyList_Size(PyObject*l){ return seq(l,&PyList_Type)->n; }
Py_ssize_t PyTuple_Size(PyObject*l){ return seq(l,&PyTuple_Type)->n; }
PyObject*PyDict_New(void){ return sized(&PyDict_Type,0); }
static long find(Seq*s,long k){ for(long i=0;i<s->n;i++) if(val(s->key[i])==k) return i; return -1; }
int PyDict_SetItem(PyObject*d,PyObject*k,PyObject*v){ Seq*s=seq(d,&PyDict_Type); Py_INCREF(k); Py_INCREF(v); long i=find(s,val(k)); if(i>=0){ Py_DECREF(s->val[i]); s->val[i]=v; Py_DECREF(k); return 0; } room(s,1); s->key[s->n]=k; s->val[s->n++]=v; return 0; }
PyObject*PyDict_GetItem(PyObject*d,PyObject*k){ Seq*s=seq(d,&PyDict_Type); long i=find(s,val(k)); return i<0?NULL:s->val[i]; }
Py_ssize_t PyDict_Size(PyObject*d){ return seq(d,&PyDict_Type)->n; }
void PyDict_Clear(PyObject*d){ Seq*s=seq(d,&PyDict_Type); for(long i=0;i<s->n;i++){ Py_DECREF(s->key[i]); Py_DECREF(s->val[i]); } s->n=0; }
static int whole(PyObject*o,long lo,long hi,long*r){ if(!PyLong_Check(o)){ err=PyExc_TypeError; return 0; } *r=((Num*)o)->v; if(*r<lo||*r>hi){ err=PyExc_OverflowError; return 0; } return 1; }

static int parse(PyObject*t,PyObject*kw,const char*f,char**names,va_list ap){ Seq*s=seq(t,&PyTuple_Type); long i=0; int opt=0;
  for(;*f&&*f!=':'&&*f!=';';f++){ if(*f=='|'){ opt=1; continue; } if(*f=='$') continue; PyObject*o=i<s->n?s->val[i]:NULL;
    if(!o&&kw&&names){ Seq*d=seq(kw,&PyDict_Type); for(long k=0;k<d->n;k++) if(!strcmp((char*)d->key[k],names[i])) o=d->val[k]; }
    i++; void*p=va_arg(ap,void*); PyTypeObject*want=NULL; if(*f=='O'&&f[1]=='!'){ want=(PyTypeObject*)p; p=va_arg(ap,void*); f++; if(o&&o->ob_type!=want){ err=PyExc_TypeError; return 0; } if(o){ *(PyObject**)p=o; } else if(!opt){ err=PyExc_TypeError; return 0; } continue; }
    if(!o){ if(opt) continue; err=PyExc_TypeError; return 0; } long v;
    switch(*f){ case 'O': *(PyObject**)p=o; break; case 'i': if(!whole(o,INT_MIN,INT_MAX,&v)) return 0; *(int*)p=(int)v; break; case 'l': if(!whole(o,LONG_MIN,LONG_MAX,&v)) return 0; *(long*)p=(long)v; break; case 'n': if(!whole(o,LONG_MIN,LONG_MAX,&v)) return 0; *(Py_ssize_t*)p=(long)v; break; case 'L': if(!whole(o,LONG_MIN,LONG_MAX,&v)) return 0; *(long long*)p=(long)v; break;
      case 'h': if(!whole(o,SHRT_MIN,SHRT_MAX,&v)) return 0; *(short*)p=(short)v; break; case 'I': if(!whole(o,LONG_MIN,LONG_MAX,&v)) return 0; *(unsigned*)p=(unsigned)v; break; case 'k': if(!whole(o,LONG_MIN,LONG_MAX,&v)) return 0; *(unsigned long*)p=(unsigned long)v; break; case 'K': if(!whole(o,LONG_MIN,LONG_MAX,&v)) return 0; *(unsigned long long*)p=(unsigned long long)v; break; case 'H': if(!whole(o,LONG_MIN,LONG_MAX,&v)) return 0; *(unsigned short*)p=(unsigned short)v; break; default: abort(); } }
  if(s->n>i){ err=PyExc_TypeError; return 0; } return 1; }
int PyArg_ParseTuple(PyObject*t,const char*f,...){ va_list ap; va_start(ap,f); int r=parse(t,NULL,f,NULL,ap); va_end(ap); return r; }
int PyArg_ParseTupleAndKeywords(PyObject*t,PyObject*kw,const char*f,char**names,...){ va_list ap; va_start(ap,names); int r=parse(t,kw,f,names,ap); va_end(ap); return r; }
PyObject*Py_BuildValue(const char*f,...){ va_list ap; va_start(ap,f); PyObject*r=NULL; switch(*f){ case 'i': case 'h': case 'b': r=num(va_arg(ap,int)); break; case 'l': case 'n': r=num(va_arg(ap,long)); break; case 'L': r=num(va_arg(ap,long long)); break; case 'I': r=num(va_arg(ap,unsigned)); break; case 'H': r=num((unsigned short)va_arg(ap,int)); break; case 'B': r=num((unsigned char)va_arg(ap,int)); break; case 'k': r=num(va_arg(ap,unsigned long)); break; case 'K': r=num(va_arg(ap,unsigned long long)); break;
    case 'O': case 'S': r=va_arg(ap,PyObject*); Py_INCREF(r); break; case 'N': r=va_arg(ap,PyObject*); break; case 0: r=Py_NewRef(Py_None); break; default: abort(); } va_end(ap); return r; }
void PyObject_Free(void*p){ free(p); }
void*PyMem_Malloc(size_t n){ return malloc(n); }
void PyMem_Free(void*p){ free(p); }
PyObject*PyType_GenericAlloc(PyTypeObject*t,Py_ssize_t n){ (void)n; return object(t,(size_t)t->tp_basicsize); }
PyObject*PyType_GenericNew(PyTypeObject*t,PyObject*a,PyObject*k){ (void)a; (void)k; return t->tp_alloc(t,0); }
int PyType_Ready(PyTypeObject*t){ if(!t->tp_alloc) t->tp_alloc=PyType_GenericAlloc; if(!t->tp_free) t->tp_free=PyObject_Free; if(!t->tp_new) t->tp_new=PyType_GenericNew; return 0; }
static PyObject module={1000,&fakepy_const}; static PyTypeObject*exported;
PyObject*PyModule_Create(PyModuleDef*d){ (void)d; return &module; }
int PyModule_AddObject(PyObject*m,const char*n,PyObject*o){ (void)m; (void)n; exported=(PyTypeObject*)o; return 0; }
int PyModule_AddObjectRef(PyObject*m,const char*n,PyObject*o){ Py_INCREF(o); return PyModule_AddObject(m,n,o); }
PyArrayObject*fakepy_array(void*o){ fakepy_alive(o); vf_assert(((PyObject*)o)->ob_type==&PyArray_Type,"an-array"); return o; }
int fakepy_width(int t){ switch(t){ case NPY_BOOL: case NPY_BYTE: case NPY_UBYTE: return 1; case NPY_SHORT: case NPY_USHORT: return 2; case NPY_INT: case NPY_UINT: case NPY_FLOAT: return 4; default: return 8; } }
npy_intp fakepy_size(PyArrayObject*a){ npy_intp n=1; for(int i=0;i<a->nd;i++) n*=a->dims[i]; return n; }
PyObject*PyArray_SimpleNewFromData(int nd,npy_intp const*d,int t,void*p){ PyArrayObject*a=(PyArrayObject*)object(&PyArray_Type,sizeof(PyArrayObject)); vf_assert(nd>=0&&nd<=3,"dimensions"); a->nd=nd; a->type=t; a->flags=NPY_ARRAY_CARRAY|NPY_ARRAY_F_CONTIGUOUS; if(nd>1&&d[0]>1&&d[1]>1) a->flags&=~NPY_ARRAY_F_CONTIGUOUS; a->data=p; npy_intp w=fakepy_width(t); for(int i=nd-1;i>=0;i--){ a->dims[i]=d[i]; a->step[i]=w; w*=d[i]; } return (PyObject*)a; }
PyObject*PyArray_SimpleNew(int nd,npy_intp const*d,int t){ npy_intp w=fakepy_width(t); for(int i=0;i<nd;i++) w*=d[i]; PyArrayObject*a=(PyArrayObject*)PyArray_SimpleNewFromData(nd,d,t,malloc(w?(size_t)w:1)); a->owns=1; a->flags|=NPY_ARRAY_OWNDATA; return (PyObject*)a; }
PyObject*(PyArray_ContiguousFromAny)(PyObject*o,int t,int lo,int hi){ PyArrayObject*a=fakepy_array(o); if(a->nd<lo||(hi&&a->nd>hi)){ err=PyExc_ValueError; return NULL; } vf_assert(t==a->type,"same-element-type"); if(a->flags&NPY_ARRAY_C_CONTIGUOUS) return Py_NewRef(o);
  PyArrayObject*c=(PyArrayObject*)PyArray_SimpleNew(a->nd,a->dims,t); int w=fakepy_width(t); npy_intp cols=a->nd>1?a->dims[1]:1; for(npy_intp i=0;i<a->dims[0];i++) for(npy_intp j=0;j<cols;j++) memcpy((char*)c->data+(i*cols+j)*w,(char*)a->data+i*a->step[0]+(a->nd>1?j*a->step[1]:0),(size_t)w); return (PyObject*)c; }
void PyArray_ENABLEFLAGS(PyArrayObject*a,int f){ a->flags|=f; if(f&NPY_ARRAY_OWNDATA) a->owns=1; }
int PyArray_SetBaseObject(PyArrayObject*a,PyObject*b){ a->base=b; return 0; }
