"""CBMC: bup_strtoimax passes on exactly what strtoimax reports."""
from sx.cbmc import Job, run_all

SRC = '''
#define PM_IMPL
#include "pymodel.h"
#include <inttypes.h>
static const char *bv_fmt; static PyObject *bv_o; static long long bv_n;
static long long made; static int made_set;
static struct pm_long made_obj;
PyObject *PyLong_FromLongLong_(long long v) { made = v; made_set = 1; return (PyObject *)&made_obj; }
#undef PyLong_FromLongLong
#define PyLong_FromLongLong PyLong_FromLongLong_
#undef PyLong_FromLong
#define PyLong_FromLong PyLong_FromLongLong_
#include "lib/bup/_helpers.c"
static struct pm_tuple g_res;
static char g_text[8];
static PyObject *build(const char *f, va_list ap) {
    bv_fmt = f; bv_o = va_arg(ap, PyObject *);
    if (f[2] == 'i') bv_n = va_arg(ap, int); else bv_n = va_arg(ap, Py_ssize_t);
    return (PyObject *)&g_res;
}
PyObject *Py_BuildValue(const char *f, ...) { va_list ap; va_start(ap, f); PyObject *r = build(f, ap); va_end(ap); return r; }
PyObject *_Py_BuildValue_SizeT(const char *f, ...) { va_list ap; va_start(ap, f); PyObject *r = build(f, ap); va_end(ap); return r; }
int PyArg_ParseTuple(PyObject *a, const char *f, ...) { va_list ap; va_start(ap, f); *va_arg(ap, char **) = g_text; va_end(ap); return 1; }
int _PyArg_ParseTuple_SizeT(PyObject *a, const char *f, ...) { va_list ap; va_start(ap, f); *va_arg(ap, char **) = g_text; va_end(ap); return 1; }
static long long in_val; static int in_erange, in_end;
intmax_t strtoimax(const char *s, char **end, int base) {
    CHECK(s == g_text && base == 0, "the whole text is read, with automatic base");
    *end = g_text + in_end;
    if (in_erange) errno = ERANGE;
    return in_val;
}
static PyObject inf_p, inf_n;
void harness(void) {
    pm_init();
    in_val = nondet_ll(); in_erange = nondet_int(); in_end = nondet_int();
    __CPROVER_assume(in_end >= 0 && in_end < 8);
    __CPROVER_assume(in_erange == 0 || in_erange == 1);
    /* ISO C: ERANGE is only reported with the extreme values, after digits */
    if (in_erange) __CPROVER_assume((in_val == INTMAX_MAX || in_val == INTMAX_MIN) && in_end > 0);
    if (!in_end) __CPROVER_assume(in_val == 0);
    errno = nondet_int();
    pos_inf = &inf_p; neg_inf = &inf_n;
    PyObject *r = bup_strtoimax(NULL, NULL);
    CHECK(r && !pm_err, "no error is raised");
    if (!in_end) { REACH("none"); CHECK(bv_o == Py_None, "no number is reported as None"); return; }
    if (in_erange && in_val > 0) { REACH("large"); CHECK(bv_o == pos_inf, "an overflow is reported as infinity"); return; }
    if (in_erange) { REACH("small"); CHECK(bv_o == neg_inf, "an underflow is reported as minus infinity"); return; }
    REACH("value");
    CHECK(bv_o == (PyObject *)&made_obj && made_set && made == in_val, "the value is passed on");
    CHECK(bv_n == in_end, "the end of the number is passed on");
}
'''
REPLAY = '''
from bup import _helpers
inf = float('inf')
for t, want in ((b'9223372036854775807', (2**63-1, 19)), (b'-9223372036854775808', (-2**63, 20)), (b'9223372036854775808', (inf,)),
                (b'-9223372036854775809', (-inf,)), (b'x', (None,)), (b'', (None,)), (b' -0x1fz', (-31, 6)), (b'010', (8, 3)), (b'5k', (5, 1))):
    r = _helpers.strtoimax(t)
    if r[:len(want)] != want: sys.exit(1)
sys.exit(0)
'''


def run(workdir, tier, so, seed):
    return run_all([Job('strtoimax', SRC, unwind=12, reach=('none', 'large', 'small', 'value'),
                        functions=['_helpers.c:bup_strtoimax'], bounds='every result strtoimax can give', replay=REPLAY)],
                   workdir, tier, so, seed)
