"""CBMC: the native vint encoders over their whole 64-bit domain."""
from sx.cbmc import Job, run_all

PRE = '''
#define PM_IMPL
#include "pymodel.h"
#include "lib/bup/_helpers.c"
static long long g_val; static int g_big; static const char *g_fmt; static PyObject *g_tuple;
int PyArg_ParseTuple(PyObject *a, const char *f, ...) {
    va_list ap; va_start(ap, f);
    if (f[0] == 'L') {
        if (g_big) { pm_err = 1; pm_exc = PyExc_OverflowError; va_end(ap); return 0; }
        *va_arg(ap, long long *) = g_val;
    } else {
        *va_arg(ap, const char **) = g_fmt;
        *va_arg(ap, PyObject **) = g_tuple;
    }
    va_end(ap);
    return 1;
}
int _PyArg_ParseTuple_SizeT(PyObject *a, const char *f, ...) {
    va_list ap; va_start(ap, f);
    if (f[0] == 'L') {
        if (g_big) { pm_err = 1; pm_exc = PyExc_OverflowError; va_end(ap); return 0; }
        *va_arg(ap, long long *) = g_val;
    } else {
        *va_arg(ap, const char **) = g_fmt;
        *va_arg(ap, PyObject **) = g_tuple;
    }
    va_end(ap);
    return 1;
}
/* the documented format */
static int spec_vuint(unsigned long long v, unsigned char *o) {
    int n = 0;
    for (int i = 0; i < 10; i++) {
        unsigned char b = v & 0x7f; v >>= 7;
        o[n++] = b | (v ? 0x80 : 0);
        if (!v) break;
    }
    return n;
}
static int spec_vint(long long v, unsigned char *o) {
    unsigned long long m = v < 0 ? 0ULL - (unsigned long long)v : v;
    unsigned char b = (m & 0x3f) | (v < 0 ? 0x40 : 0);
    m >>= 6;
    if (!m) { o[0] = b; return 1; }
    o[0] = b | 0x80;
    return 1 + spec_vuint(m, o + 1);
}
'''

ONE = PRE + '''
void harness(void) {
    pm_init();
    long long in_val = nondet_ll(); int in_big = nondet_int();
    g_val = in_val; g_big = in_big != 0;
    unsigned char want[12];
    PyObject *r = %(fn)s(NULL, NULL);
    if (g_big) { REACH("big"); CHECK(!r && pm_err, "out of range integers are refused"); return; }
    %(neg)s
    int n = %(spec)s(in_val, want);
    if (n == %(max)d) REACH("longest");
    CHECK(r && !pm_err, "in-range integers are encoded");
    CHECK(r && Py_SIZE(r) == n, "length of the encoding");
    for (int i = 0; i < n; i++)
        CHECK((unsigned char)pm_result.data[i] == want[i], "bytes of the encoding");
}
'''

PACK = PRE + '''
static struct pm_tuple tup;
static struct pm_long l0, l1;
static struct pm_bytes b0;
void harness(void) {
    pm_init();
    long long in_v0 = nondet_ll(), in_v1 = nondet_ll(); int in_big0 = nondet_int(), in_big1 = nondet_int();
    __CPROVER_assume(in_big0 == 0 || in_big0 == 1); __CPROVER_assume(in_big1 == 0 || in_big1 == 1);
    size_t in_slen = nondet_size(); __CPROVER_assume(in_slen <= %(smax)d);
    unsigned char in_s[%(smax)d + 1];
    for (int i = 0; i <= %(smax)d; i++) in_s[i] = nondet_uchar();
    g_fmt = "%(fmt)s";
    g_tuple = (PyObject *)&tup;
    tup.ob_base.ob_base.ob_type = &PyTuple_Type; tup.ob_base.ob_size = %(n)d;
    pm_mklong(&l0, in_v0, in_big0); pm_mklong(&l1, in_v1, in_big1);
    b0.ob_base.ob_base.ob_type = &PyBytes_Type; b0.ob_base.ob_size = in_slen;
    for (int i = 0; i < %(smax)d; i++) b0.data[i] = in_s[i];
    %(items)s
    unsigned char want[64]; int n = 0, refuse = 0;
    %(spec)s
    PyObject *r = bup_limited_vint_pack(NULL, NULL);
    CHECK(!(r && pm_err), "no result together with an error");
    CHECK(r || pm_err, "an error is reported");
    if (!r) {
        REACH("refused");
        /* refusing is always allowed through OverflowError: the caller then uses the slow encoder */
        CHECK(pm_exc == PyExc_OverflowError || refuse, "only overflow or an invalid argument is refused");
        return;
    }
    REACH("packed");
    CHECK(!refuse, "invalid arguments are refused");
    CHECK(Py_SIZE(r) == n, "length of the record");
    for (int i = 0; i < n && i < 64; i++)
        CHECK((unsigned char)pm_result.data[i] == want[i], "bytes of the record");
}
'''

REPLAY1 = '''
from bup import _helpers, vint
import io
v = int(vals.get('in_val', 0)); v = v - 2**64 if v >= 2**63 else v
if vals.get('in_big'): v = 2**63 + 5
def spec(v):
    out = []
    if %(signed)r:
        m = abs(v); b = (m & 63) | (64 if v < 0 else 0); m >>= 6
        if not m: return bytes([b])
        out.append(b | 128); v = m
    while True:
        b = v & 127; v >>= 7
        out.append(b | (128 if v else 0))
        if not v: return bytes(out)
try:
    r = _helpers.%(fn)s(v)
except (OverflowError, ValueError):
    sys.exit(0 if (v < 0 and not %(signed)r) or v >= 2**63 else 1)
sys.exit(0 if r == spec(v) else 1)
'''
REPLAYP = '''
from bup import _helpers, vint
fmt = %(fmt)r
src = []
ints = [(vals.get('in_v0', 0), vals.get('in_big0')), (vals.get('in_v1', 0), vals.get('in_big1'))]
k = 0
for c in fmt:
    if c == 's': src.append(bytes(vals.get('in_s', [0]*70))[:int(vals.get('in_slen', 0))])
    else:
        v, big = ints[k]; k += 1; v = int(v); v = v - 2**64 if v >= 2**63 else v
        src.append(2**64 + 1 if big else int(v))
def enc(c, v):
    if c == 's': return enc('V', len(v)) + v
    out = []
    if c == 'v':
        m = abs(v); b = (m & 63) | (64 if v < 0 else 0); m >>= 6
        if not m: return bytes([b])
        out.append(b | 128); v = m
    while True:
        b = v & 127; v >>= 7
        out.append(b | (128 if v else 0))
        if not v: return bytes(out)
bad = any(c == 'V' and v < 0 for c, v in zip(fmt, src))
try:
    r = _helpers.limited_vint_pack(fmt, tuple(src))
except OverflowError: sys.exit(0)
except ValueError: sys.exit(0 if bad else 1)
sys.exit(1 if bad or r != b''.join(enc(c, v) for c, v in zip(fmt, src)) else 0)
'''


def run(workdir, tier, so, seed):
    jobs = [
        Job('vuint_encode', ONE % dict(fn='bup_vuint_encode', spec='spec_vuint', max=9,
            neg='if (in_val < 0) { REACH("negative"); CHECK(!r && pm_err, "negative integers are refused"); return; }'),
            unwind=14, reach=('big', 'negative', 'longest'), functions=['_helpers.c:bup_vuint_encode', '_helpers.c:vuint_encode'],
            bounds='every 64-bit integer', replay=REPLAY1 % dict(fn='vuint_encode', signed=False)),
        Job('vint_encode', ONE % dict(fn='bup_vint_encode', spec='spec_vint', max=10, neg=''),
            unwind=14, reach=('big', 'longest'), functions=['_helpers.c:bup_vint_encode', '_helpers.c:vint_encode'],
            bounds='every 64-bit integer', replay=REPLAY1 % dict(fn='vint_encode', signed=True)),
    ]
    smax = 4 if tier == 'quick' else 24
    for fmt in ('v', 'V', 's', 'vV', 'Vs', 'sv', 'vv') + (() if tier == 'quick' else ('sV', 'sVv', 'Vsv', 'vVs')):
        items, spec, k = '', '', 0
        for i, c in enumerate(fmt):
            if c == 's':
                items += 'tup.item[%d] = (PyObject *)&b0;\n' % i
                spec += ('n += spec_vuint(in_slen, want + n); for (int i = 0; i < %d; i++) if (i < in_slen) want[n + i] = in_s[i]; n += in_slen;\n' % smax)
            else:
                items += 'tup.item[%d] = (PyObject *)&l%d;\n' % (i, k)
                if c == 'V': spec += 'if (in_v%d < 0) refuse = 1; else if (!refuse) n += spec_vuint(in_v%d, want + n);\n' % (k, k)
                else: spec += 'if (!refuse) n += spec_vint(in_v%d, want + n);\n' % k
                k += 1
        if k: items += ''
        jobs.append(Job('limited_vint_pack ' + fmt, PACK % dict(fmt=fmt, n=len(fmt), items=items, spec=spec, smax=smax),
                        unwind=66, reach=('packed',) + (() if fmt == 's' else ('refused',)),
                        functions=['_helpers.c:bup_limited_vint_pack', '_helpers.c:vuint_encode', '_helpers.c:vint_encode'],
                        bounds='every 64-bit or larger integer, byte strings up to %d bytes' % smax,
                        replay=REPLAYP % dict(fmt=fmt)))
    return run_all(jobs, workdir, tier, so, seed)
