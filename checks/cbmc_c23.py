"""CBMC: write_sparsely writes exactly the data, leaving holes only for zeros."""
from sx.cbmc import Job, run_all

SRC = '''
#ifndef N
#define N 8
#endif
#define PM_IMPL
#include "pymodel.h"
static unsigned long long made; static int made_set; static struct pm_long made_obj;
static PyObject *m_ull(unsigned long long v) { made = v; made_set = 1; return (PyObject *)&made_obj; }
#undef PyLong_FromUnsignedLongLong
#define PyLong_FromUnsignedLongLong m_ull
static ssize_t m_write(int fd, const void *b, size_t n);
static off_t m_lseek(int fd, off_t o, int w);
#include <unistd.h>
#define write m_write
#define lseek m_lseek
#include "lib/bup/_helpers.c"
#include "src/bup/pyutil.c"
#undef write
#undef lseek
static unsigned char in_buf[N]; static unsigned in_len; static unsigned long long in_prev, in_min;
static unsigned in_chunk, in_partial; static int in_fail;
static struct pm_long o_min, o_prev;
static int parse(va_list ap) {
    *va_arg(ap, int *) = 7;
    *va_arg(ap, unsigned char **) = in_buf;
    *va_arg(ap, Py_ssize_t *) = in_len;
    *va_arg(ap, PyObject **) = (PyObject *)&o_min;
    *va_arg(ap, PyObject **) = (PyObject *)&o_prev;
    return 1;
}
int PyArg_ParseTuple(PyObject *a, const char *f, ...) { va_list ap; va_start(ap, f); int r = parse(ap); va_end(ap); return r; }
int _PyArg_ParseTuple_SizeT(PyObject *a, const char *f, ...) { va_list ap; va_start(ap, f); int r = parse(ap); va_end(ap); return r; }
/* the file: one byte of it, at an arbitrary place (relative to where the buffer's data belongs) */
static unsigned char out; static unsigned in_at; static unsigned long long pos; static unsigned nwrites; static int failed, nseeks;
static ssize_t m_write(int fd, const void *b, size_t n) {
    CHECK(fd == 7, "the right file is written");
    CHECK(n > 0 && n <= N, "writes are within the buffer");
    if (in_fail == 1) { failed = 1; return -1; }
    unsigned k = n;
    if (nwrites == in_partial && in_chunk >= 1 && in_chunk < n) k = in_chunk;      /* a partial write */
    nwrites++;
    CHECK(failed || (pos >= in_prev && pos - in_prev + k <= N), "data is written where it belongs");
    unsigned long long at = pos - in_prev;
    if (at <= in_at && in_at < at + k) out = ((const unsigned char *)b)[in_at - at];
    pos += k;
    return k;
}
static off_t m_lseek(int fd, off_t o, int w) {
    CHECK(fd == 7 && w == SEEK_CUR && o >= 0, "only moves forward");
    nseeks++;
    if (in_fail == 2) { failed = 1; return -1; }
    pos += o;
    return pos;
}
void harness(void) {
    pm_init();
    in_len = nondet_uint(); in_prev = nondet_ull(); in_min = nondet_ull(); in_fail = nondet_int();
    __CPROVER_assume(in_len <= N && in_fail >= 0 && in_fail <= 2);
    __CPROVER_assume(in_prev <= (1ULL << 62));
    __CPROVER_assume(in_min == M);
    for (unsigned i = 0; i < N; i++) in_buf[i] = nondet_uchar();
    in_chunk = nondet_uint(); in_partial = nondet_uint(); in_at = nondet_uint();
    __CPROVER_assume(in_at < N && in_partial < N);
    pm_mklong(&o_min, in_min, 0); pm_mklong(&o_prev, in_prev, 0);
    PyObject *r = bup_write_sparsely(NULL, NULL);
    if (failed) {
        REACH("failed");
        CHECK(pm_err, "a failing write is reported");
        return;
    }
    CHECK(r == (PyObject *)&made_obj && made_set && !pm_err, "the pending zeros are returned");
    CHECK(pos + made == in_prev + in_len, "nothing is lost or repeated");
    if (nwrites == 0) {
        CHECK(pos == 0 && made == in_prev + in_len, "without data everything is pending");
        REACH("zeros");
    } else {
        REACH("data");
        CHECK(pos >= in_prev && made <= in_len, "written up to within the buffer");
        if (nwrites > 1) REACH("several writes");
        if (nseeks > 1 && in_prev) REACH("a hole inside");
    }
    if (in_at < in_len) CHECK(out == in_buf[in_at], "the content is the data");
}
'''
REPLAY = '''
import os, tempfile
from bup import _helpers
buf, n = bytes(vals['in_buf'])[:vals['in_len']], vals['in_len']
prev = min(vals['in_prev'], 100)
if vals.get('in_fail', 0):
    r, w = os.pipe(); os.close(r); os.close(w)
    try: _helpers.write_sparsely(w, buf, vals['in_min'], prev)
    except (OSError, SystemError): sys.exit(0)
    sys.exit(1 if any(buf) else 0)
class P: pass
fd, name = tempfile.mkstemp(); os.unlink(name)
z = _helpers.write_sparsely(fd, buf, vals['in_min'], prev)
os.ftruncate(fd, os.lseek(fd, z, os.SEEK_END))
sys.exit(0 if os.pread(fd, 1000, 0) == bytes(prev) + buf else 1)
'''


def run(workdir, tier, so, seed):
    # (buffer length, hole threshold, with memory safety)
    which = [(4, 1, True), (4, 2, True), (4, 3, True), (5, 1, False), (5, 2, False), (6, 3, False), (6, 9, False)]
    if tier != 'quick': which += [(6, 1, True), (6, 2, True), (6, 3, True), (7, 2, False), (8, 3, False), (8, 4, False), (8, 5, False)]
    jobs = [Job('write_sparsely %d %d' % (n, m), SRC, defines=('N=%d' % n, 'M=%d' % m), flags=('--object-bits', '12'), unwind=n + 2,
                unwindset=('append_sparse_region.0:2', 'write_all.0:3'), safety=safe, timeout=800 if tier == 'quick' else 5000,
                reach=('failed', 'zeros', 'data', 'several writes') + (('a hole inside',) if n > m + 1 else ()),
                functions=['_helpers.c:bup_write_sparsely/append_sparse_region/record_sparse_zeros/find_non_sparse_end/'
                           'find_trailing_zeros/find_not_zero/write_all', 'pyutil.c:bup_ullong_from_py'],
                bounds='any up to %d bytes, hole threshold %d, any carried over hole length up to 2**62, any one partial write, '
                       'one kind of failing call' % (n, m), replay=REPLAY) for n, m, safe in which]
    return run_all(jobs, workdir, tier, so, seed)
