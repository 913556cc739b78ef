"""CBMC: stat results carry every field of struct stat, times in nanoseconds."""
from sx.cbmc import Job, run_all

SRC = '''
#define PM_IMPL
#include "pymodel.h"
/* integers: kind 0 signed value, 1 unsigned value, 2 value * billion, 3 sum of a kind 2 and a plain integer */
struct num { PyObject o; int kind; long long v; unsigned long long u; long long ns; };
static struct num nums[64]; static int nnums;
static struct num *mk(int kind) {
    struct num *n = &nums[nnums++]; n->o.ob_refcnt = 1 << 20; n->kind = kind; return n;
}
static PyObject *m_ll(long long v) { struct num *n = mk(0); n->v = v; return &n->o; }
static PyObject *m_ull(unsigned long long v) { struct num *n = mk(1); n->u = v; return &n->o; }
#undef PyLong_FromLongLong
#undef PyLong_FromUnsignedLongLong
#define PyLong_FromLongLong m_ll
#define PyLong_FromUnsignedLongLong m_ull
static PyObject *bp;
static PyObject *m_mul(PyObject *a, PyObject *b) {
    struct num *x = (struct num *)a, *n = mk(2);
    CHECK(b == bp && x->kind == 0, "seconds are multiplied by a billion");
    n->v = x->v; return &n->o;
}
static PyObject *m_add(PyObject *a, PyObject *b) {
    struct num *x = (struct num *)a, *y = (struct num *)b, *n = mk(3);
    if (x->kind != 2) { struct num *t = x; x = y; y = t; }
    CHECK(x->kind == 2 && y->kind == 0, "nanoseconds are added to the seconds");
    n->v = x->v; n->ns = y->v; return &n->o;
}
#define PyNumber_Multiply m_mul
#define PyNumber_Add m_add
static struct num *item[16];
static PyObject seq;
static PyObject *m_new(PyTypeObject *t) { return &seq; }
static void m_set(PyObject *s, Py_ssize_t i, PyObject *v) { CHECK(s == &seq && i >= 0 && i < 11, "a field of the result is set"); item[i] = (struct num *)v; }
#define PyStructSequence_New m_new
#undef PyStructSequence_SetItem
#define PyStructSequence_SetItem m_set
#undef PyStructSequence_SET_ITEM
#define PyStructSequence_SET_ITEM m_set
#include "lib/bup/_helpers.c"
static PyObject billion;
static int plain(struct num *n, unsigned long long v) { return n && (n->kind == 0 ? n->v >= 0 && (unsigned long long)n->v == v : n->kind == 1 && n->u == v); }
static int stamp(struct num *n, long long s, long long ns) { return n && n->kind == 3 && n->v == s && n->ns == ns; }
void harness(void) {
    pm_init();
    bp = bup_py_billion = &billion;
    struct stat st;
    unsigned in_mode = nondet_uint(), in_uid = nondet_uint(), in_gid = nondet_uint();
    unsigned long long in_ino = nondet_ull(), in_dev = nondet_ull(), in_nlink = nondet_ull(), in_rdev = nondet_ull();
    long long in_size = nondet_ll(), in_as = nondet_ll(), in_ms = nondet_ll(), in_cs = nondet_ll();
    long long in_an = nondet_ll(), in_mn = nondet_ll(), in_cn = nondet_ll();
    __CPROVER_assume(in_size >= 0);
    st.st_mode = in_mode; st.st_uid = in_uid; st.st_gid = in_gid; st.st_ino = in_ino; st.st_dev = in_dev;
    st.st_nlink = in_nlink; st.st_rdev = in_rdev; st.st_size = in_size;
    st.st_atim.tv_sec = in_as; st.st_mtim.tv_sec = in_ms; st.st_ctim.tv_sec = in_cs;
    st.st_atim.tv_nsec = in_an; st.st_mtim.tv_nsec = in_mn; st.st_ctim.tv_nsec = in_cn;
    PyObject *r = stat_struct_to_py(&st);
    CHECK(r == &seq && !pm_err, "a result is returned");
    CHECK(plain(item[0], in_mode), "mode"); CHECK(plain(item[1], in_ino), "inode"); CHECK(plain(item[2], in_dev), "device");
    CHECK(plain(item[3], in_nlink), "links"); CHECK(plain(item[4], in_uid), "uid"); CHECK(plain(item[5], in_gid), "gid");
    CHECK(plain(item[6], in_size), "size"); CHECK(plain(item[10], in_rdev), "rdev");
    CHECK(stamp(item[7], in_as, in_an), "access time"); CHECK(stamp(item[8], in_ms, in_mn), "modification time");
    CHECK(stamp(item[9], in_cs, in_cn), "change time");
    for (int i = 0; i < 11; i++) {
        const char *want[] = {"st_mode", "st_ino", "st_dev", "st_nlink", "st_uid", "st_gid", "st_size", "st_atime_ns", "st_mtime_ns", "st_ctime_ns", "st_rdev"};
        int k = 0;
        while (k < 14 && want[i][k] && want[i][k] == xstat_result_fields[i].name[k]) k++;
        CHECK(want[i][k] == 0 && xstat_result_fields[i].name[k] == 0, "fields are named in this order");
    }
    if (in_ms < 0) REACH("before 1970");
    REACH("done");
}
'''
REPLAY = '''
import os, tempfile, shutil
from bup import xstat
d = tempfile.mkdtemp()
bad = 0
try:
    p = os.path.join(d, 'f').encode()
    open(p, 'wb').write(b'abc')
    os.link(p, p + b'2')
    for a, m in ((5, -1), (-999999999, 1), (-10**9, 2**31 * 10**9 + 7), (1234567890123456789, 987654321987654321), (-86400 * 10**9 + 123456789, 0)):
        os.utime(p, ns=(a, m))
        for q in (p, d.encode(), b'/dev/null'):
            o = os.stat(q); x = xstat.stat(q)
            for f in ('st_mode', 'st_ino', 'st_dev', 'st_nlink', 'st_uid', 'st_gid', 'st_size', 'st_atime_ns', 'st_mtime_ns', 'st_ctime_ns', 'st_rdev'):
                if getattr(o, f) != getattr(x, f): bad = 1
finally: shutil.rmtree(d)
sys.exit(bad)
'''


def run(workdir, tier, so, seed):
    return run_all([Job('stat', SRC, unwind=16, reach=('before 1970', 'done'),
                        functions=['_helpers.c:stat_struct_to_py', '_helpers.c:make_timestamp', '_helpers.c:xstat_result_fields'],
                        bounds='every value of every struct stat field', replay=REPLAY)],
                   workdir, tier, so, seed)
