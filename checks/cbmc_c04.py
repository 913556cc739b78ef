"""CBMC: write_idx writes exactly the version 2 index of the objects it is given."""
from sx.cbmc import Job, run_all

SRC = '''
#ifndef N
#define N 2
#endif
#define PM_IMPL
#include "pymodel.h"
static unsigned long made; static int made_set; static struct pm_long made_obj;
static PyObject *m_ul(unsigned long v) { made = v; made_set = 1; return (PyObject *)&made_obj; }
#undef PyLong_FromUnsignedLong
#define PyLong_FromUnsignedLong m_ul
static PyObject *m_list_item(PyObject *l, Py_ssize_t i);
static Py_ssize_t m_list_size(PyObject *l);
static int m_list_sort(PyObject *l);
#undef PyList_GET_ITEM
#define PyList_GET_ITEM m_list_item
#undef PyList_GET_SIZE
#define PyList_GET_SIZE m_list_size
#undef PyList_Size
#define PyList_Size m_list_size
#undef PyList_Sort
#define PyList_Sort m_list_sort
static int m_msync(void *p, size_t n, int f);
#include <sys/mman.h>
#define msync m_msync
#include "lib/bup/_helpers.c"
#include "src/bup/pyutil.c"
#undef msync
static unsigned char in_sha[N][20]; static unsigned in_crc[N]; static unsigned long long in_ofs[N];
static int in_fail, n_sync;
static struct pm_long o_crc[N], o_ofs[N], o_total;
static PyObject entry[N], idx_obj, part_obj[256];
static unsigned char sorted_[256];
static unsigned char map[8 + 1024 + 36 * N + 8];
static unsigned long long map_len;
static int n_release;
void PyBuffer_Release(Py_buffer *b) { n_release++; }
static int m_msync(void *p, size_t n, int f) { CHECK(p == map && n == map_len, "all of the map is written back"); n_sync++; return in_fail ? -1 : 0; }
static unsigned lo_of(unsigned i) { unsigned n = 0; for (int k = 0; k < N; k++) if (in_sha[k][0] < i) n++; return n; }
static Py_ssize_t m_list_size(PyObject *l) {
    if (l == &idx_obj) return 256;
    unsigned i = l - part_obj;
    return lo_of(i + 1) - lo_of(i);
}
static int m_list_sort(PyObject *l) { sorted_[l - part_obj] = 1; return 0; }
static PyObject *m_list_item(PyObject *l, Py_ssize_t j) {
    if (l == &idx_obj) { CHECK(j >= 0 && j < 256, "within the list"); return &part_obj[j]; }
    unsigned i = l - part_obj, lo = lo_of(i), n = lo_of(i + 1) - lo;
    CHECK(j >= 0 && j < n, "within the part");
    /* the parts are given in an arbitrary (here: descending) order until sorted */
    return &entry[sorted_[i] ? lo + j : lo + n - 1 - j];
}
static int parse(PyObject *a, va_list ap) {
    if (!a) {
        *va_arg(ap, char **) = "f";
        Py_buffer *b = va_arg(ap, Py_buffer *);
        b->buf = map; b->len = map_len;
        *va_arg(ap, PyObject **) = &idx_obj;
        *va_arg(ap, PyObject **) = (PyObject *)&o_total;
        return 1;
    }
    unsigned k = a - entry;
    CHECK(k < N, "an entry");
    *va_arg(ap, unsigned char **) = in_sha[k];
    *va_arg(ap, Py_ssize_t *) = 20;
    *va_arg(ap, PyObject **) = (PyObject *)&o_crc[k];
    *va_arg(ap, PyObject **) = (PyObject *)&o_ofs[k];
    return 1;
}
int PyArg_ParseTuple(PyObject *a, const char *f, ...) { va_list ap; va_start(ap, f); int r = parse(a, ap); va_end(ap); return r; }
int _PyArg_ParseTuple_SizeT(PyObject *a, const char *f, ...) { va_list ap; va_start(ap, f); int r = parse(a, ap); va_end(ap); return r; }
static unsigned be32(const unsigned char *p) { return (unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static unsigned in_at, in_k, in_b;
static const unsigned char first[] = { FIRST };
void harness(void) {
    pm_init();
    in_fail = nondet_int(); __CPROVER_assume(in_fail == 0 || in_fail == 1);
    unsigned n64 = 0;
    for (int k = 0; k < N; k++) {
        for (int b = 0; b < 20; b++) in_sha[k][b] = nondet_uchar();
        in_sha[k][0] = first[k];
        in_crc[k] = nondet_uint(); in_ofs[k] = nondet_ull();
        __CPROVER_assume(in_ofs[k] <= 0x7fffffffffffffffULL);
        pm_mklong(&o_crc[k], in_crc[k], 0); pm_mklong(&o_ofs[k], in_ofs[k], 0);
        if (k) __CPROVER_assume(memcmp(in_sha[k - 1], in_sha[k], 20) < 0);
        if (in_ofs[k] >= (1ULL << 31)) n64++;
    }
    pm_mklong(&o_total, N, 0);
    map_len = 8 + 1024 + 28 * N + 8 * n64;
    for (int i = 0; i < 8; i++) map[map_len + i] = 0xc5;
    PyObject *r = write_idx(NULL, NULL);
    CHECK(n_release == 1, "the buffer is released");
    if (in_fail) { REACH("failed"); CHECK(!r && pm_err, "a failure is reported"); return; }
    CHECK(!pm_err && r == (PyObject *)&made_obj && made_set && made == N, "the number of objects is returned");
    CHECK(n_sync == 1, "the map is written back");
    REACH("written");
    for (int i = 0; i < 8; i++) CHECK(map[map_len + i] == 0xc5, "nothing is written beyond the end");
    CHECK(be32(map) == 0xff744f63 && be32(map + 4) == 2, "the header is that of version 2");
    in_b = nondet_uint(); __CPROVER_assume(in_b < 256);
    CHECK(be32(map + 8 + 4 * in_b) == lo_of(in_b + 1), "the fan-out counts the objects up to each first byte");
    in_at = nondet_uint(); __CPROVER_assume(in_at < 20);
    unsigned at64 = 0;
    for (int k = 0; k < N; k++) {
        CHECK(map[1032 + 20 * k + in_at] == in_sha[k][in_at], "the ids are listed in order");
        CHECK(be32(map + 1032 + 20 * N + 4 * k) == in_crc[k], "each id has its checksum");
        unsigned o = be32(map + 1032 + 24 * N + 4 * k);
        if (in_ofs[k] < (1ULL << 31)) CHECK(o == in_ofs[k], "each id has its offset");
        else {
            REACH("large offset");
            CHECK(o == (0x80000000U | at64), "a large offset is found in its table");
            const unsigned char *p = map + 1032 + 28 * N + 8 * at64;
            CHECK(((unsigned long long)be32(p) << 32 | be32(p + 4)) == in_ofs[k], "each id has its large offset");
            at64++;
        }
    }
}
'''

REPLAY = '''
import mmap, struct, tempfile, random
from bup import _helpers
def one(objs):
    n = len(objs); n64 = sum(o >= 2**31 for _, _, o in objs)
    size = 8 + 1024 + 28 * n + 8 * n64
    idx = [[] for i in range(256)]
    for o in reversed(objs): idx[o[0][0]].append(o)
    with tempfile.TemporaryFile() as f:
        f.truncate(size)
        m = mmap.mmap(f.fileno(), size)
        try: got_n = _helpers.write_idx(b'f', m, idx, n)
        except Exception as e: print('write_idx raised', e); return True
        if got_n != n: return True
        got = m[:]; m.close()
    objs = sorted(objs)
    want = b'\\377tOc\\0\\0\\0\\2' + b''.join(struct.pack('!I', sum(s[0] <= b for s, _, _ in objs)) for b in range(256))
    want += b''.join(s for s, _, _ in objs) + b''.join(struct.pack('!I', c) for _, c, _ in objs)
    o64 = [o for _, _, o in objs if o >= 2**31]
    for _, _, o in objs: want += struct.pack('!I', o if o < 2**31 else 0x80000000 | o64.index(o))
    want += b''.join(struct.pack('!Q', o) for o in o64)
    if got != want: print('index differs for', objs); return True
shas = [bytes(x) for x in vals.get('in_sha', [])]
crcs, ofss = vals.get('in_crc', []), vals.get('in_ofs', [])
if shas and all(len(s) == 20 for s in shas) and len(set(shas)) == len(shas) == len(crcs) == len(ofss):
    if one([(s, int(c), int(o)) for s, c, o in zip(shas, crcs, ofss)]): sys.exit(1)
rnd = random.Random(1)
for t in range(300):
    n = rnd.randint(1, 5)
    if one([(bytes([rnd.choice((0, 1, 255, rnd.randrange(256)))]) + rnd.randbytes(19), rnd.choice((0, 1, 2**31 - 1, 2**31, 2**32 - 1)),
             rnd.choice((0, 12, 2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**40 + t)) + 0) for i in range(n)]): sys.exit(1)
sys.exit(0)
'''

def run(workdir, tier, so, seed):
    jobs = []
    shapes = [(5,), (0, 0), (0, 255), (7, 7, 200)]
    if tier != 'quick': shapes += [(255, 255), (0, 1), (1, 128, 255), (0, 0, 0), (255, 255, 255), (0, 9, 9), (3, 3, 4, 4)]
    for fb in shapes:
        n = len(fb)
        jobs.append(Job('write_idx %s' % '-'.join('%02x' % b for b in fb), SRC.replace('FIRST', ', '.join(map(str, fb))), unwind=21,
                        unwindset=('write_idx.1:258', 'write_idx.0:%d' % (n + 1)), defines=('N=%d' % n, 'PM_BYTES=4'),
                        flags=('--object-bits', '12', '--max-field-sensitivity-array-size', '2000'),
                        reach=('failed', 'written', 'large offset'), timeout=700,
                        functions=['_helpers.c:write_idx', 'pyutil.c:bup_uint_from_py', 'pyutil.c:bup_ullong_from_py'],
                        bounds='%d objects with first bytes %s, any distinct further bytes, any checksums and any offsets below 2**63' % (n, fb), replay=REPLAY))
    return run_all(jobs, workdir, tier, so, seed)
