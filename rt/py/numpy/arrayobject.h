#ifndef FAKE_NUMPY_H
#define FAKE_NUMPY_H
#include "../Python.h"
typedef Py_ssize_t npy_intp;
enum NPY_TYPES { NPY_BOOL=0,NPY_BYTE,NPY_UBYTE,NPY_SHORT,NPY_USHORT,NPY_INT,NPY_UINT,NPY_LONG,NPY_ULONG,NPY_LONGLONG,NPY_ULONGLONG,NPY_FLOAT,NPY_DOUBLE,NPY_LONGDOUBLE,NPY_OBJECT=17 };
#define NPY_INT8 NPY_BYTE
#define NPY_UINT8 NPY_UBYTE
#define NPY_INT16 NPY_SHORT
#define NPY_UINT16 NPY_USHORT
#define NPY_INT32 NPY_INT
#define NPY_UINT32 NPY_UINT
#define NPY_INT64 NPY_LONG
#define NPY_UINT64 NPY_ULONG
#define NPY_FLOAT32 NPY_FLOAT
#define NPY_FLOAT64 NPY_DOUBLE
#define NPY_ARRAY_C_CONTIGUOUS 1
#define NPY_ARRAY_F_CONTIGUOUS 2
#define NPY_ARRAY_OWNDATA 4
#define NPY_ARRAY_FORCECAST 0x10
#define NPY_ARRAY_ALIGNED 0x100
#define NPY_ARRAY_WRITEABLE 0x400
#define NPY_ARRAY_CARRAY (NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_ALIGNED|NPY_ARRAY_WRITEABLE)
#define NPY_ARRAY_DEFAULT NPY_ARRAY_CARRAY
#define NPY_ARRAY_IN_ARRAY (NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_ALIGNED)
/* element (i,j) lies at data[i*step[0]+j*step[1]] */
typedef struct { PyObject ob_base; int type,nd,flags,owns; npy_intp dims[3],step[3]; void*data; PyObject*base; } PyArrayObject;
#define PyArray_Check(o) (Py_TYPE(o)==&PyArray_Type)
PyArrayObject*fakepy_array(void*);
#define PyArray_TYPE(a) (fakepy_array(a)->type)
#define PyArray_NDIM(a) (fakepy_array(a)->nd)
#define PyArray_DIMS(a) (fakepy_array(a)->dims)
#define PyArray_SHAPE(a) (fakepy_array(a)->dims)
#define PyArray_DIM(a,i) (fakepy_array(a)->dims[i])
#define PyArray_DATA(a) (fakepy_array(a)->data)
#define PyArray_BYTES(a) ((char*)fakepy_array(a)->data)
#define PyArray_FLAGS(a) (fakepy_array(a)->flags)
#define PyArray_IS_C_CONTIGUOUS(a) ((fakepy_array(a)->flags&NPY_ARRAY_C_CONTIGUOUS)!=0)
#define PyArray_CHKFLAGS(a,f) ((fakepy_array(a)->flags&(f))==(f))
#define PyArray_IS_F_CONTIGUOUS(a) PyArray_CHKFLAGS(a,NPY_ARRAY_F_CONTIGUOUS)
#define PyArray_ISFORTRAN(a) (PyArray_IS_F_CONTIGUOUS(a)&&!PyArray_IS_C_CONTIGUOUS(a))
#define PyArray_ISONESEGMENT(a) (PyArray_IS_C_CONTIGUOUS(a)||PyArray_IS_F_CONTIGUOUS(a))
#define PyArray_ISALIGNED(a) 1
#define PyArray_ISBEHAVED(a) 1
#define PyArray_ISCARRAY(a) PyArray_IS_C_CONTIGUOUS(a)
#define PyArray_ISCARRAY_RO(a) PyArray_IS_C_CONTIGUOUS(a)
#define PyArray_STRIDES(a) (fakepy_array(a)->step)
#define PyArray_STRIDE(a,i) (fakepy_array(a)->step[i])
#define PyArray_GETPTR1(a,i) ((void*)(PyArray_BYTES(a)+(i)*PyArray_STRIDE(a,0)))
#define PyArray_GETPTR2(a,i,j) ((void*)(PyArray_BYTES(a)+(i)*PyArray_STRIDE(a,0)+(j)*PyArray_STRIDE(a,1)))
#define PyArray_ISINTEGER(a) (PyArray_TYPE(a)>=NPY_BYTE&&PyArray_TYPE(a)<=NPY_ULONGLONG)
#define PyArray_ISFLOAT(a) (PyArray_TYPE(a)>=NPY_FLOAT&&PyArray_TYPE(a)<=NPY_LONGDOUBLE)
#define PyArray_EquivTypenums(a,b) ((a)==(b))
#define PyArray_ISCONTIGUOUS(a) PyArray_IS_C_CONTIGUOUS(a)
npy_intp fakepy_size(PyArrayObject*);
#define PyArray_SIZE(a) fakepy_size(fakepy_array(a))
#define PyArray_Size(a) fakepy_size(fakepy_array(a))
int fakepy_width(int);
#define PyArray_ITEMSIZE(a) fakepy_width(fakepy_array(a)->type)
#define PyArray_NBYTES(a) (fakepy_size(fakepy_array(a))*fakepy_width(fakepy_array(a)->type))
PyObject*PyArray_ContiguousFromAny(PyObject*,int,int,int);
#define PyArray_ContiguousFromAny(o,t,a,b) (PyArray_ContiguousFromAny)((PyObject*)(o),t,a,b)
#define PyArray_ContiguousFromObject(o,t,a,b) (PyArray_ContiguousFromAny)((PyObject*)(o),t,a,b)
#define PyArray_FROM_OTF(o,t,f) (PyArray_ContiguousFromAny)((PyObject*)(o),t,0,0)
#define PyArray_GETCONTIGUOUS(o) ((PyArrayObject*)(PyArray_ContiguousFromAny)((PyObject*)(o),PyArray_TYPE(o),0,0))
PyObject*PyArray_SimpleNew(int,npy_intp const*,int);
PyObject*PyArray_SimpleNewFromData(int,npy_intp const*,int,void*);
#define PyArray_EMPTY(nd,d,t,f) PyArray_SimpleNew(nd,d,t)
void PyArray_ENABLEFLAGS(PyArrayObject*,int);
int PyArray_SetBaseObject(PyArrayObject*,PyObject*);
#define import_array() ((void)0)
#endif
