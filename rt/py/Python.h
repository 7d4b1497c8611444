/* Stand-in for the part of the Python C API an extension module like this one uses; implemented in fakepy.c. */
#ifndef FAKE_PYTHON_H
#define FAKE_PYTHON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
#include <sys/types.h>
#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 12
#define PY_VERSION_HEX 0x030c0000
typedef ssize_t Py_ssize_t;
typedef Py_ssize_t Py_hash_t;
struct _typeobject;
typedef struct _object { Py_ssize_t ob_refcnt; struct _typeobject*ob_type; } PyObject;
typedef struct { PyObject ob_base; Py_ssize_t ob_size; } PyVarObject;
#define PyObject_HEAD PyObject ob_base;
#define PyObject_VAR_HEAD PyVarObject ob_base;
#define PyObject_HEAD_INIT(type) { 1, (type) },
#define PyVarObject_HEAD_INIT(type,size) { { 1, (type) }, (size) },
typedef PyObject*(*PyCFunction)(PyObject*,PyObject*);
typedef PyObject*(*PyCFunctionWithKeywords)(PyObject*,PyObject*,PyObject*);
typedef void(*destructor)(PyObject*);
typedef void(*freefunc)(void*);
typedef int(*initproc)(PyObject*,PyObject*,PyObject*);
typedef PyObject*(*newfunc)(struct _typeobject*,PyObject*,PyObject*);
typedef PyObject*(*allocfunc)(struct _typeobject*,Py_ssize_t);
typedef PyObject*(*getter)(PyObject*,void*);
typedef int(*setter)(PyObject*,PyObject*,void*);
typedef PyObject*(*reprfunc)(PyObject*);
typedef int(*visitproc)(PyObject*,void*);
typedef int(*traverseproc)(PyObject*,visitproc,void*);
typedef int(*inquiry)(PyObject*);
typedef struct { const char*ml_name; PyCFunction ml_meth; int ml_flags; const char*ml_doc; } PyMethodDef;
typedef struct { const char*name; int type; Py_ssize_t offset; int flags; const char*doc; } PyMemberDef;
typedef struct { const char*name; getter get; setter set; const char*doc; void*closure; } PyGetSetDef;
typedef struct _typeobject { PyVarObject ob_base; const char*tp_name; Py_ssize_t tp_basicsize,tp_itemsize; destructor tp_dealloc; Py_ssize_t tp_vectorcall_offset; void*tp_getattr; void*tp_setattr; void*tp_as_async; reprfunc tp_repr; void*tp_as_number; void*tp_as_sequence; void*tp_as_mapping; void*tp_hash; void*tp_call; reprfunc tp_str; void*tp_getattro; void*tp_setattro; void*tp_as_buffer; unsigned long tp_flags; const char*tp_doc; traverseproc tp_traverse; inquiry tp_clear; void*tp_richcompare; Py_ssize_t tp_weaklistoffset; void*tp_iter; void*tp_iternext; PyMethodDef*tp_methods; PyMemberDef*tp_members; PyGetSetDef*tp_getset; struct _typeobject*tp_base; PyObject*tp_dict; void*tp_descr_get; void*tp_descr_set; Py_ssize_t tp_dictoffset; initproc tp_init; allocfunc tp_alloc; newfunc tp_new; freefunc tp_free; } PyTypeObject;
typedef struct { PyObject ob_base; PyObject*(*m_init)(void); Py_ssize_t m_index; PyObject*m_copy; } PyModuleDef_Base;
#define PyModuleDef_HEAD_INIT { { 1, NULL }, NULL, 0, NULL }
typedef struct PyModuleDef { PyModuleDef_Base m_base; const char*m_name; const char*m_doc; Py_ssize_t m_size; PyMethodDef*m_methods; void*m_slots; traverseproc m_traverse; inquiry m_clear; freefunc m_free; } PyModuleDef;
#define Py_TPFLAGS_DEFAULT 0ul
#define Py_TPFLAGS_BASETYPE (1ul<<10)
#define Py_TPFLAGS_HAVE_GC (1ul<<14)
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
#define PyMODINIT_FUNC PyObject*
#define PyDoc_STR(s) s
#define PyDoc_STRVAR(n,s) static const char n[]=s
#define PyDoc_VAR(n) static const char n[]
void _Py_Dealloc(PyObject*);
void fakepy_alive(PyObject*);
static inline void fakepy_incref(PyObject*o){ fakepy_alive(o); o->ob_refcnt++; }
static inline void fakepy_decref(PyObject*o){ fakepy_alive(o); if(--o->ob_refcnt==0) _Py_Dealloc(o); }
#define _PyObject_CAST(o) ((PyObject*)(o))
#define Py_INCREF(o) fakepy_incref(_PyObject_CAST(o))
#define Py_DECREF(o) fakepy_decref(_PyObject_CAST(o))
static inline void Py_IncRef(PyObject*o){ if(o) Py_INCREF(o); }
static inline void Py_DecRef(PyObject*o){ if(o) Py_DECREF(o); }
#define Py_XINCREF(o) Py_IncRef(_PyObject_CAST(o))
#define Py_XDECREF(o) Py_DecRef(_PyObject_CAST(o))
static inline PyObject*Py_NewRef(PyObject*o){ Py_INCREF(o); return o; }
static inline PyObject*Py_XNewRef(PyObject*o){ Py_XINCREF(o); return o; }
#define Py_NewRef(o) Py_NewRef(_PyObject_CAST(o))
#define Py_XNewRef(o) Py_XNewRef(_PyObject_CAST(o))
#define Py_CLEAR(o) do{ PyObject*tmp_=_PyObject_CAST(o); if(tmp_){ (o)=NULL; Py_DECREF(tmp_); } }while(0)
#define Py_SETREF(d,s) do{ PyObject*tmp_=_PyObject_CAST(d); (d)=(s); Py_DECREF(tmp_); }while(0)
#define Py_XSETREF(d,s) do{ PyObject*tmp_=_PyObject_CAST(d); (d)=(s); Py_XDECREF(tmp_); }while(0)
#define Py_TYPE(o) (_PyObject_CAST(o)->ob_type)
#define Py_REFCNT(o) (_PyObject_CAST(o)->ob_refcnt)
#define Py_UNUSED(n) n __attribute__((unused))
extern PyObject fakepy_none;
#define Py_None (&fakepy_none)
#define Py_RETURN_NONE return Py_NewRef(Py_None)
extern PyObject*PyExc_ValueError,*PyExc_TypeError,*PyExc_RuntimeError,*PyExc_IndexError,*PyExc_MemoryError,*PyExc_OverflowError,*PyExc_AttributeError,*PyExc_SystemError,*PyExc_Exception,*PyExc_KeyError;
void PyErr_SetString(PyObject*,const char*);
PyObject*PyErr_Format(PyObject*,const char*,...);
void PyErr_SetNone(PyObject*);
PyObject*PyErr_NoMemory(void);
PyObject*PyErr_Occurred(void);
void PyErr_Clear(void);
extern PyTypeObject PyLong_Type,PyList_Type,PyTuple_Type,PyDict_Type,PyArray_Type;
#define PyLong_Check(o) (Py_TYPE(o)==&PyLong_Type)
#define PyList_Check(o) (Py_TYPE(o)==&PyList_Type)
#define PyTuple_Check(o) (Py_TYPE(o)==&PyTuple_Type)
#define PyDict_Check(o) (Py_TYPE(o)==&PyDict_Type)
#define PyObject_TypeCheck(o,t) (Py_TYPE(o)==(t))
int PyArg_ParseTuple(PyObject*,const char*,...);
int PyArg_ParseTupleAndKeywords(PyObject*,PyObject*,const char*,char**,...);
PyObject*Py_BuildValue(const char*,...);
PyObject*PyLong_FromLong(long);
PyObject*PyLong_FromLongLong(long long);
PyObject*PyLong_FromUnsignedLong(unsigned long);
PyObject*PyLong_FromUnsignedLongLong(unsigned long long);
PyObject*PyLong_FromSsize_t(Py_ssize_t);
PyObject*PyLong_FromSize_t(size_t);
long PyLong_AsLong(PyObject*);
PyObject*PyList_New(Py_ssize_t);
int PyList_Append(PyObject*,PyObject*);
int PyList_SetItem(PyObject*,Py_ssize_t,PyObject*);
PyObject*PyList_GetItem(PyObject*,Py_ssize_t);
Py_ssize_t PyList_Size(PyObject*);
#define PyList_SET_ITEM(l,i,v) ((void)PyList_SetItem((PyObject*)(l),i,(PyObject*)(v)))
#define PyList_GET_ITEM(l,i) PyList_GetItem((PyObject*)(l),i)
#define PyList_GET_SIZE(l) PyList_Size((PyObject*)(l))
PyObject*PyTuple_New(Py_ssize_t);
int PyTuple_SetItem(PyObject*,Py_ssize_t,PyObject*);
PyObject*PyTuple_GetItem(PyObject*,Py_ssize_t);
Py_ssize_t PyTuple_Size(PyObject*);
#define PyTuple_GET_ITEM(l,i) PyTuple_GetItem((PyObject*)(l),i)
#define PyTuple_GET_SIZE(l) PyTuple_Size((PyObject*)(l))
PyObject*PyDict_New(void);
int PyDict_SetItem(PyObject*,PyObject*,PyObject*);
PyObject*PyDict_GetItem(PyObject*,PyObject*);
Py_ssize_t PyDict_Size(PyObject*);
void PyDict_Clear(PyObject*);
int PyType_Ready(PyTypeObject*);
PyObject*PyType_GenericAlloc(PyTypeObject*,Py_ssize_t);
PyObject*PyType_GenericNew(PyTypeObject*,PyObject*,PyObject*);
PyObject*PyModule_Create(PyModuleDef*);
int PyModule_AddObject(PyObject*,const char*,PyObject*);
int PyModule_AddObjectRef(PyObject*,const char*,PyObject*);
void PyObject_Free(void*);
#define PyObject_Del PyObject_Free
void*PyMem_Malloc(size_t);
void PyMem_Free(void*);
typedef void*PyThreadState;
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
#endif
