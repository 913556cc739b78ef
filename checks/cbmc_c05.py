"""CBMC: merge_into merges sorted id lists; extract_bits and firstword read prefixes."""
from sx.cbmc import Job, run_all

HEAD = '''
#define PM_IMPL
#include "pymodel.h"
static unsigned long made; static int made_set; static struct pm_long made_obj;
static PyObject *m_ul(unsigned long v) { made = v; made_set = 1; return (PyObject *)&made_obj; }
#undef PyLong_FromUnsignedLong
#define PyLong_FromUnsignedLong m_ul
static PyObject *m_list_item(PyObject *l, Py_ssize_t i);
static Py_ssize_t m_list_size(PyObject *l);
#undef PyList_GetItem
#define PyList_GetItem m_list_item
#undef PyList_Size
#define PyList_Size m_list_size
#undef PyMem_Free
#define PyMem_Free m_free
static void m_free(void *p);
static void *m_alloc(size_t n);
'''

SRC = HEAD + '''
#undef memcmp
#define memcmp m_memcmp
#undef memcpy
#define memcpy m_memcpy
#undef memmove
#define memmove m_memmove
static void *m_memmove(void *a, const void *b, size_t n) {
    void **x = a; void *const *y = b;
    CHECK(n % sizeof(void *) == 0 && x > y, "moves pointers up");
    for (size_t i = n / sizeof(void *); i > 0; i--) x[i - 1] = y[i - 1];
    return a;
}
/* the ids differ in their first and last byte only */
static int m_memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = a, *y = b;
    CHECK(n == 20, "whole ids are compared");
    if (x[0] != y[0]) return x[0] < y[0] ? -1 : 1;
    if (x[19] != y[19]) return x[19] < y[19] ? -1 : 1;
    return 0;
}
static void *m_memcpy(void *a, const void *b, size_t n) {
    CHECK(n == 20, "whole ids are copied");
    unsigned char *x = a; const unsigned char *y = b;
    x[0] = y[0]; x[19] = y[19];
    return a;
}
#include "lib/bup/_helpers.c"
#include "src/bup/pyutil.c"
#undef memcmp
#undef memcpy
#undef memmove
static state_t m_state;
void *PyModule_GetState(PyObject *o) { return &m_state; }
static const int lens[] = { LENS };
static const int maps[] = { MAPS };
static unsigned char in_sha[TOTAL + 1][20];      /* all the ids, list after list */
static unsigned in_name[TOTAL + 1];
static unsigned char src[M][4 + MAXLEN * 24];
static unsigned char out[12 + 4 * (1 << BITS) + 24 * TOTAL + 8];
static int base[M], freed, n_release;
static PyObject ilist, itup[M];
static struct pm_long o_total;
static void m_free(void *p) { freed++; }
void PyBuffer_Release(Py_buffer *b) { n_release++; }
static Py_ssize_t m_list_size(PyObject *l) { return M; }
static PyObject *m_list_item(PyObject *l, Py_ssize_t i) { return &itup[i]; }
static int parse(PyObject *a, va_list ap) {
    if (!a) {
        Py_buffer *b = va_arg(ap, Py_buffer *);
        b->buf = out; b->len = sizeof(out) - 8;
        *va_arg(ap, int *) = BITS;
        *va_arg(ap, PyObject **) = (PyObject *)&o_total;
        *va_arg(ap, PyObject **) = &ilist;
        return 1;
    }
    int k = a - itup;
    Py_buffer *b = va_arg(ap, Py_buffer *);
    b->buf = src[k]; b->len = sizeof(src[k]);
    *va_arg(ap, long *) = lens[k];
    *va_arg(ap, long *) = 4;
    *va_arg(ap, long *) = maps[k] ? 4 + 20 * lens[k] : 0;
    *va_arg(ap, int *) = base[k];
    return 1;
}
int PyArg_ParseTuple(PyObject *a, const char *f, ...) { va_list ap; va_start(ap, f); int r = parse(a, ap); va_end(ap); return r; }
int _PyArg_ParseTuple_SizeT(PyObject *a, const char *f, ...) { va_list ap; va_start(ap, f); int r = parse(a, ap); va_end(ap); return r; }
static unsigned be32(const unsigned char *p) { return (unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static unsigned in_b, in_i;
static int same(const unsigned char *a, const unsigned char *b) { return a[0] == b[0] && a[19] == b[19]; }
static int cmp(const unsigned char *a, const unsigned char *b) { if (a[0] != b[0]) return a[0] < b[0] ? -1 : 1; return a[19] == b[19] ? 0 : a[19] < b[19] ? -1 : 1; }
void harness(void) {
    pm_init();
    int at = 0, names = 0;
    for (int k = 0; k < M; k++) {
        base[k] = names;
        for (int j = 0; j < lens[k]; j++, at++) {
            for (int b = 0; b < 20; b++) { unsigned char c = nondet_uchar(); if (b > 0 && b < 19) c = 0; in_sha[at][b] = c; src[k][4 + 20 * j + b] = c; }
            in_name[at] = maps[k] ? nondet_uint() : 0;
            if (maps[k]) {
                __CPROVER_assume(in_name[at] < maps[k]);
                for (int b = 0; b < 4; b++) src[k][4 + 20 * lens[k] + 4 * j + b] = in_name[at] >> (24 - 8 * b);
            }
            if (j) __CPROVER_assume(cmp(in_sha[at - 1], in_sha[at]) < DUPS);
        }
        /* the lists are given in descending order of their first id */
        if (k) __CPROVER_assume(cmp(in_sha[at - lens[k] - lens[k - 1]], in_sha[at - lens[k]]) >= 0);
        names += maps[k] ? maps[k] : 1;
    }
    pm_mklong(&o_total, TOTAL, 0);
    for (int i = 0; i < 8; i++) out[sizeof(out) - 1 - i] = 0xc5;
    PyObject *r = merge_into(NULL, NULL);
    CHECK(!pm_err && r == (PyObject *)&made_obj && made_set && made == TOTAL, "the number of objects is returned");
    REACH("merged");
    for (int i = 0; i < 8; i++) CHECK(out[sizeof(out) - 1 - i] == 0xc5, "nothing is written beyond the end");
    const unsigned char *sh = out + 12 + 4 * (1 << BITS), *nm = sh + 20 * TOTAL;
    for (int i = 1; i < TOTAL; i++) CHECK(cmp(sh + 20 * (i - 1), sh + 20 * i) <= 0, "the ids are in order");
    /* each (id, name) occurs as often as it was given */
    in_i = nondet_uint(); __CPROVER_assume(in_i < TOTAL);
    unsigned char w[20]; unsigned wn = 0; int given = 0, got = 0;
    at = 0;
    for (int k = 0; k < M; k++) for (int j = 0; j < lens[k]; j++, at++) if (at == in_i) { for (int b = 0; b < 20; b++) w[b] = in_sha[at][b]; wn = base[k] + in_name[at]; }
    at = 0;
    for (int k = 0; k < M; k++) for (int j = 0; j < lens[k]; j++, at++) if (same(in_sha[at], w) && base[k] + in_name[at] == wn) given++;
    for (int i = 0; i < TOTAL; i++) if (same(sh + 20 * i, w) && be32(nm + 4 * i) == wn) got++;
    CHECK(got == given, "every id is listed with its index exactly as often as it was given");
    in_b = nondet_uint(); __CPROVER_assume(in_b < (1 << BITS));
    unsigned upto = 0;
    for (int i = 0; i < TOTAL; i++) if ((BITS ? be32(in_sha[i]) >> (32 - BITS) : 0) <= in_b) upto++;
    CHECK(be32(out + 12 + 4 * in_b) == upto, "the table counts the ids up to each prefix");
}
'''

EXTRACT = HEAD + '''
static void m_free(void *p) {}
static PyObject *m_list_item(PyObject *l, Py_ssize_t i) { return NULL; }
static Py_ssize_t m_list_size(PyObject *l) { return 0; }
#include "lib/bup/_helpers.c"
#include "src/bup/pyutil.c"
static unsigned char in_s[8]; static unsigned in_len; static int in_bits, which;
static int parse(va_list ap) {
    *va_arg(ap, unsigned char **) = in_s;
    *va_arg(ap, Py_ssize_t *) = in_len;
    if (!which) *va_arg(ap, int *) = in_bits;
    return 1;
}
int PyArg_ParseTuple(PyObject *a, const char *f, ...) { va_list ap; va_start(ap, f); int r = parse(ap); va_end(ap); return r; }
int _PyArg_ParseTuple_SizeT(PyObject *a, const char *f, ...) { va_list ap; va_start(ap, f); int r = parse(ap); va_end(ap); return r; }
void harness(void) {
    pm_init();
    for (int i = 0; i < 8; i++) in_s[i] = nondet_uchar();
    in_len = nondet_uint(); in_bits = nondet_int();
    __CPROVER_assume(in_len >= 4 && in_len <= 8 && in_bits >= 0 && in_bits <= 31);
    unsigned v = (unsigned)in_s[0] << 24 | in_s[1] << 16 | in_s[2] << 8 | in_s[3];
    which = 0;
    PyObject *r = extract_bits(NULL, NULL);
    CHECK(r && made_set && made == (in_bits ? v >> (32 - in_bits) : 0), "the first bits are extracted");
    REACH("bits");
    which = 1; made_set = 0;
    r = firstword(NULL, NULL);
    CHECK(r && made_set && made == v, "the first word is read");
}
'''

REPLAY = '''
import random, struct
from bup import _helpers
rnd = random.Random(2)
def one(bits, lists):
    # lists: [(ids, names or None)]
    total = sum(len(l) for l, n in lists)
    inp, base, want = [], 0, []
    for ids, names in lists:
        m = bytearray(b'    ' + b''.join(ids) + b''.join(struct.pack('!I', n) for n in names or ()))
        inp.append((m, len(ids), 4, 4 + 20 * len(ids) if names else 0, base))
        want += [(i, base + (names[k] if names else 0)) for k, i in enumerate(ids)]
        base += max(names) + 1 if names else 1
    inp.sort(reverse=True, key=lambda x: bytes(x[0][x[2]:x[2] + 20]))
    out = bytearray(12 + 4 * 2**bits + 24 * total)
    if _helpers.merge_into(out, bits, total, inp) != total: return True
    table = struct.unpack_from('!%dI' % 2**bits, out, 12)
    at = 12 + 4 * 2**bits
    got = [bytes(out[at + 20 * i:at + 20 * i + 20]) for i in range(total)]
    nm = struct.unpack_from('!%dI' % total, out, at + 20 * total)
    if got != sorted(got) or sorted(zip(got, nm)) != sorted(want): print('differs', lists); return True
    for p in range(2**bits):
        if table[p] != sum(int.from_bytes(g[:4], 'big') >> (32 - bits) <= p for g in got): print('table differs', bits, lists); return True
shas = [bytes(x) for x in vals.get('in_sha', [])]
LENS, MAPS, BITS = @@
if all(len(s) == 20 for s in shas) and len(shas) >= sum(LENS) and LENS:
    lists, at = [], 0
    for n, m in zip(LENS, MAPS):
        lists.append((shas[at:at + n], [int(x) for x in vals['in_name'][at:at + n]] if m else None)); at += n
    if all(l == sorted(l) for l, n in lists) and one(BITS, lists): sys.exit(1)
for t in range(3000):
    pool = [bytes([rnd.choice((0, 1, 2, 128, 255))]) + rnd.randbytes(19) for i in range(6)]
    lists = []
    for k in range(rnd.randint(1, 5)):
        ids = sorted(rnd.sample(pool, rnd.randint(1, 4)))
        lists.append((ids, [rnd.randrange(3) for i in ids] if rnd.random() < .4 else None))
    if one(rnd.choice((0, 1, 2, 3, 8)), lists): sys.exit(1)
for t in range(3000):
    s, b = rnd.randbytes(20), rnd.randint(0, 31)
    v = int.from_bytes(s[:4], 'big')
    if _helpers.extract_bits(s, b) != (v >> (32 - b)) or _helpers.firstword(s) != v: sys.exit(1)
sys.exit(0)
'''

def run(workdir, tier, so, seed):
    flags = ('--object-bits', '12', '--max-field-sensitivity-array-size', '2000', '--no-undefined-shift-check')
    jobs = [Job('extract_bits', EXTRACT, unwind=9, flags=flags, reach=('bits',), defines=('PM_BYTES=4',),
                functions=['_helpers.c:extract_bits', '_helpers.c:_extract_bits', '_helpers.c:firstword'],
                bounds='any 4 to 8 bytes, 0 to 31 bits', replay=REPLAY.replace('@@', '(), (), 0'))]
    shapes = [(1, (1, 1, 1), (0, 0, 0)), (1, (2, 1), (0, 2)), (0, (2, 2), (0, 0)), (2, (1, 2), (0, 0)), (1, (2, 2, 1), (3, 0, 0)), (2, (1, 1, 1, 1), (0, 0, 0, 0)), (0, (3, 3), (0, 2))]
    if tier != 'quick': shapes += [(1, (2, 2, 2), (0, 2, 0)), (1, (3, 2), (2, 2)), (0, (1, 1, 1, 1, 1), (0,) * 5), (3, (2, 1, 2), (0, 2, 0))]
    for bits, lens, maps in shapes:
        total = sum(lens)
        jobs.append(Job('merge_into %d %s %s' % (bits, lens, maps), SRC.replace('LENS', ', '.join(map(str, lens))).replace('MAPS', ', '.join(map(str, maps))),
                        unwind=21, unwindset=('merge_into.0:%d' % (len(lens) + 1), 'merge_into.1:%d' % ((1 << bits) + 1), 'merge_into.2:%d' % (total + 1), 'merge_into.3:%d' % ((1 << bits) + 1),
                                   'merge_into.4:%d' % (len(lens) + 1), 'merge_into.5:%d' % (len(lens) + 1), '_fix_idx_order.0:%d' % (len(lens) + 1), 'm_memmove.0:%d' % (len(lens) + 1)),
                        defines=('M=%d' % len(lens), 'TOTAL=%d' % total, 'MAXLEN=%d' % max(lens), 'BITS=%d' % bits, 'PM_BYTES=4', 'DUPS=%d' % (1 if any(maps) else 0)),
                        flags=flags, reach=('merged',), timeout=800 if tier == 'quick' else 5000,
                        functions=['_helpers.c:merge_into', '_helpers.c:_fix_idx_order', '_helpers.c:_get_idx_i', '_helpers.c:_extract_bits', '_helpers.c:_cmp_sha'],
                        bounds='%d-bit table; lists of %s ids with arbitrary first and last byte (the rest equal), lists with this many names of their own: %s' % (bits, lens, maps),
                        replay=REPLAY.replace('@@', '%r, %r, %r' % (lens, maps, bits))))
    return run_all(jobs, workdir, tier, so, seed)
