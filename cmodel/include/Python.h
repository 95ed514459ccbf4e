/* Declarations of the part of CPython API used by src_c, for translation to
 * LLVM IR; the functions are modelled by pysym/capi.py. */
#ifndef MODEL_PYTHON_H
#define MODEL_PYTHON_H

#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdbool.h>
#include <stdarg.h>
#include <string.h>

typedef ptrdiff_t Py_ssize_t;
typedef ptrdiff_t Py_hash_t;
typedef struct _typeobject PyTypeObject;

typedef struct {
    Py_ssize_t ob_refcnt;
    PyTypeObject *ob_type;
} PyObject;

struct _typeobject {
    PyObject ob_base;
};

#define PyObject_HEAD PyObject ob_base;

typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef PyObject *(*newfunc)(PyTypeObject *, PyObject *, PyObject *);
typedef PyObject *(*allocfunc)(PyTypeObject *, Py_ssize_t);
typedef void (*destructor)(PyObject *);
typedef void (*freefunc)(void *);
typedef int (*initproc)(PyObject *, PyObject *, PyObject *);
typedef void (*PyCapsule_Destructor)(PyObject *);

typedef struct {
    const char *ml_name;
    PyCFunction ml_meth;
    int ml_flags;
    const char *ml_doc;
} PyMethodDef;

typedef struct {
    int slot;
    void *pfunc;
} PyType_Slot;

typedef struct {
    const char *name;
    int basicsize;
    int itemsize;
    unsigned int flags;
    PyType_Slot *slots;
} PyType_Spec;

typedef struct {
    int slot;
    void *value;
} PyModuleDef_Slot;

typedef struct {
    int m_unused;
} PyModuleDef_Base;

typedef struct {
    PyModuleDef_Base m_base;
    const char *m_name;
    const char *m_doc;
    Py_ssize_t m_size;
    PyMethodDef *m_methods;
    PyModuleDef_Slot *m_slots;
} PyModuleDef;

#define PyModuleDef_HEAD_INIT {0}
#define PyMODINIT_FUNC PyObject *
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
#define Py_tp_dealloc 52
#define Py_tp_init 60
#define Py_tp_methods 64
#define Py_tp_new 65
#define Py_mod_create 1
#define Py_mod_exec 2
#define Py_TPFLAGS_DEFAULT 0
#define Py_TPFLAGS_HEAPTYPE (1 << 9)

extern PyObject Model_None, Model_True, Model_False;
extern PyObject *PyExc_TypeError, *PyExc_ValueError, *PyExc_RuntimeError,
                *PyExc_KeyError, *PyExc_MemoryError, *PyExc_IndexError,
                *PyExc_Exception, *PyExc_SystemError;

#define Py_None (&Model_None)
#define Py_True (&Model_True)
#define Py_False (&Model_False)
#define Py_RETURN_NONE return Py_NewRef(Py_None)
#define Py_RETURN_TRUE return Py_NewRef(Py_True)
#define Py_RETURN_FALSE return Py_NewRef(Py_False)
#define Py_UNUSED(x) x __attribute__((unused))

#define Py_TYPE(o) (Model_type((PyObject *)(o)))
#define Py_REFCNT(o) (Model_refcnt((PyObject *)(o)))
#define Py_INCREF(o) Model_incref((PyObject *)(o))
#define Py_DECREF(o) Model_decref((PyObject *)(o))
#define Py_XINCREF(o) do { PyObject *_x = (PyObject *)(o); \
                           if (_x) Model_incref(_x); } while (0)
#define Py_XDECREF(o) do { PyObject *_x = (PyObject *)(o); \
                           if (_x) Model_decref(_x); } while (0)
#define Py_CLEAR(o) do { PyObject *_x = (PyObject *)(o); \
                         if (_x) { (o) = NULL; Model_decref(_x); } } while (0)
#define Py_NewRef(o) Model_newref((PyObject *)(o))
#define Py_XNewRef(o) Model_xnewref((PyObject *)(o))
PyTypeObject *Model_type(PyObject *o);
Py_ssize_t Model_refcnt(PyObject *o);
void Model_incref(PyObject *o);
void Model_decref(PyObject *o);
PyObject *Model_newref(PyObject *o);
PyObject *Model_xnewref(PyObject *o);

void *PyMem_Malloc(size_t n);
void *PyMem_Calloc(size_t n, size_t size);
void PyMem_Free(void *p);
void *PyObject_Malloc(size_t n);
void PyObject_Free(void *p);
void PyObject_Del(void *p);
#define PyMem_New(t, n) ((t *)PyMem_Malloc((n) * sizeof(t)))
PyObject *PyType_GenericAlloc(PyTypeObject *type, Py_ssize_t n);
#define PyObject_TypeCheck(o, t) (Model_type((PyObject *)(o)) == (t))
#define Py_IS_TYPE(o, t) (Model_type((PyObject *)(o)) == (t))
PyObject *PyType_FromModuleAndSpec(PyObject *m, PyType_Spec *s, PyObject *b);
PyObject *PyType_FromSpec(PyType_Spec *s);
PyObject *PyModuleDef_Init(PyModuleDef *def);
int PyModule_AddObjectRef(PyObject *m, const char *name, PyObject *o);
int PyModule_AddObject(PyObject *m, const char *name, PyObject *o);
int PyModule_AddType(PyObject *m, PyTypeObject *t);

void PyErr_SetString(PyObject *type, const char *msg);
void PyErr_SetNone(PyObject *type);
PyObject *PyErr_NoMemory(void);
PyObject *PyErr_Occurred(void);
void PyErr_Clear(void);

int PyUnicode_Check(PyObject *o);
int PyTuple_Check(PyObject *o);
#define PyUnicode_CheckExact PyUnicode_Check
#define PyTuple_CheckExact PyTuple_Check
int PyCapsule_CheckExact(PyObject *o);
const char *PyUnicode_AsUTF8AndSize(PyObject *o, Py_ssize_t *size);
const char *PyUnicode_AsUTF8(PyObject *o);
PyObject *PyUnicode_FromString(const char *s);
PyObject *PyUnicode_FromStringAndSize(const char *s, Py_ssize_t size);
PyObject *PyUnicode_DecodeUTF8(const char *s, Py_ssize_t size, const char *e);
int PyUnicode_CompareWithASCIIString(PyObject *o, const char *s);
Py_ssize_t PyUnicode_GetLength(PyObject *o);

PyObject *PyTuple_New(Py_ssize_t size);
Py_ssize_t PyTuple_Size(PyObject *o);
PyObject *PyTuple_GetItem(PyObject *o, Py_ssize_t i);
int PyTuple_SetItem(PyObject *o, Py_ssize_t i, PyObject *x);
PyObject *PyTuple_GetSlice(PyObject *o, Py_ssize_t a, Py_ssize_t b);
#define PyTuple_GET_SIZE PyTuple_Size
#define PyTuple_GET_ITEM PyTuple_GetItem
#define PyTuple_SET_ITEM(o, i, x) ((void)PyTuple_SetItem(o, i, x))
#define PySequence_Size PyTuple_Size
#define PyObject_Size PyTuple_Size

PyObject *PyObject_GetIter(PyObject *o);
PyObject *PyIter_Next(PyObject *o);

PyObject *PySet_New(PyObject *iterable);
int PySet_Add(PyObject *set, PyObject *o);
int PySet_Contains(PyObject *set, PyObject *o);
PyObject *PyBool_FromLong(long v);

PyObject *PyCapsule_New(void *p, const char *name, PyCapsule_Destructor d);
void *PyCapsule_GetPointer(PyObject *o, const char *name);

PyObject *PyImport_ImportModule(const char *name);
PyObject *PyObject_GetAttrString(PyObject *o, const char *name);
PyObject *PyObject_CallObject(PyObject *o, PyObject *args);
PyObject *PyObject_CallNoArgs(PyObject *o);
PyObject *PyObject_CallMethod(PyObject *o, const char *name,
                              const char *format, ...);
PyObject *PyObject_CallMethodOneArg(PyObject *o, PyObject *name, PyObject *a);
int PyArg_ParseTuple(PyObject *args, const char *format, ...);

#endif
