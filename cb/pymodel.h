/* A small executable model of the CPython API for CBMC harnesses that
   include bup's real C sources.  Objects use the real header structs so that
   CPython's inline macros work on them. */
#include <Python.h>
#include <stdarg.h>
#include <errno.h>
#define REACH(l) __CPROVER_assert(0, "REACH " l)
#define CHECK(c, l) __CPROVER_assert((c), "CHECK " l)
int nondet_int(void); unsigned nondet_uint(void); long long nondet_ll(void);
unsigned long long nondet_ull(void); unsigned char nondet_uchar(void); size_t nondet_size(void);

static int pm_err;                       /* exception pending */
static PyObject *pm_exc;
struct pm_long { PyObject ob_base; long long lo; int big; };   /* big: outside long long */
#ifndef PM_BYTES
#define PM_BYTES 64
#endif
struct pm_bytes { PyVarObject ob_base; Py_hash_t h; char data[PM_BYTES + 1]; };
#ifndef PM_ITEMS
#define PM_ITEMS 8
#endif
struct pm_tuple { PyVarObject ob_base; PyObject *item[PM_ITEMS]; };
/* the real macros index one-element trailing arrays, which CBMC bounds-checks */
#undef PyTuple_GET_ITEM
#define PyTuple_GET_ITEM(o, i) (((struct pm_tuple *)(o))->item[i])
#undef PyTuple_GET_SIZE
#define PyTuple_GET_SIZE(o) (((struct pm_tuple *)(o))->ob_base.ob_size)
#undef PyList_GET_ITEM
#define PyList_GET_ITEM(o, i) (((struct pm_tuple *)(o))->item[i])
#undef PyList_GET_SIZE
#define PyList_GET_SIZE(o) (((struct pm_tuple *)(o))->ob_base.ob_size)
#undef PyBytes_AS_STRING
#define PyBytes_AS_STRING(o) (((struct pm_bytes *)(o))->data)
#undef PyBytes_GET_SIZE
#define PyBytes_GET_SIZE(o) (((struct pm_bytes *)(o))->ob_base.ob_size)

#ifdef PM_IMPL
PyTypeObject PyBytes_Type, PyTuple_Type, PyLong_Type, PyList_Type, PyBool_Type, PyUnicode_Type, PyByteArray_Type;
static PyObject pm_excobj[8];
PyObject *PyExc_OverflowError, *PyExc_ValueError, *PyExc_Exception, *PyExc_OSError, *PyExc_TypeError, *PyExc_RuntimeError, *PyExc_SystemError, *PyExc_MemoryError, *PyExc_IOError, *PyExc_KeyError, *PyExc_IndexError;
struct pm_long _Py_pmTrue, _Py_pmFalse;
PyObject _Py_NoneStruct;
static void pm_init(void) {
    PyBytes_Type.tp_flags = Py_TPFLAGS_BYTES_SUBCLASS;
    PyTuple_Type.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS;
    PyLong_Type.tp_flags = Py_TPFLAGS_LONG_SUBCLASS;
    PyList_Type.tp_flags = Py_TPFLAGS_LIST_SUBCLASS;
    PyExc_OverflowError = &pm_excobj[0]; PyExc_ValueError = &pm_excobj[1];
    PyExc_Exception = &pm_excobj[2]; PyExc_OSError = &pm_excobj[3];
    PyExc_TypeError = &pm_excobj[4]; PyExc_RuntimeError = &pm_excobj[5];
    PyExc_IOError = &pm_excobj[3]; PyExc_SystemError = &pm_excobj[6]; PyExc_MemoryError = &pm_excobj[7];
    pm_err = 0;
}
void _Py_Dealloc(PyObject *o) { (void)o; }
PyObject *PyErr_Format(PyObject *e, const char *f, ...) { pm_err = 1; pm_exc = e; return NULL; }
void PyErr_SetString(PyObject *e, const char *f) { pm_err = 1; pm_exc = e; }
PyObject *PyErr_SetFromErrno(PyObject *e) { pm_err = 1; pm_exc = e; return NULL; }
PyObject *PyErr_SetFromErrnoWithFilename(PyObject *e, const char *n) { pm_err = 1; pm_exc = e; return NULL; }
PyObject *PyErr_NoMemory(void) { pm_err = 1; pm_exc = PyExc_MemoryError; return NULL; }
PyObject *PyErr_Occurred(void) { return pm_err ? pm_exc : NULL; }
int PyErr_ExceptionMatches(PyObject *e) { return pm_err && pm_exc == e; }
void PyErr_Clear(void) { pm_err = 0; }
int PyErr_CheckSignals(void) { return 0; }
static void pm_mklong(struct pm_long *o, long long v, int big) { o->ob_base.ob_refcnt = 1 << 20; o->ob_base.ob_type = &PyLong_Type; o->lo = v; o->big = big; }
long long PyLong_AsLongLong(PyObject *o) {
    struct pm_long *l = (struct pm_long *)o;
    if (l->big) { pm_err = 1; pm_exc = PyExc_OverflowError; return -1; }
    return l->lo;
}
long PyLong_AsLong(PyObject *o) { return PyLong_AsLongLong(o); }
Py_ssize_t PyLong_AsSsize_t(PyObject *o) { return PyLong_AsLongLong(o); }
unsigned long PyLong_AsUnsignedLong(PyObject *o) {
    struct pm_long *l = (struct pm_long *)o;
    if (l->big || l->lo < 0) { pm_err = 1; pm_exc = PyExc_OverflowError; return (unsigned long)-1; }
    return l->lo;
}
unsigned long long PyLong_AsUnsignedLongLong(PyObject *o) { return PyLong_AsUnsignedLong(o); }
char *PyBytes_AsString(PyObject *o) { return ((struct pm_bytes *)o)->data; }
static struct pm_bytes pm_result; static int pm_nresult;
PyObject *PyBytes_FromStringAndSize(const char *s, Py_ssize_t n) {
    __CPROVER_assert(n >= 0 && n <= PM_BYTES, "CHECK result size within the model");
    pm_result.ob_base.ob_base.ob_refcnt = 1; pm_result.ob_base.ob_base.ob_type = &PyBytes_Type;
    pm_result.ob_base.ob_size = n;
    if (s) for (Py_ssize_t i = 0; i < n && i < PM_BYTES; i++) pm_result.data[i] = s[i];
    pm_nresult++;
    return (PyObject *)&pm_result;
}
#endif
