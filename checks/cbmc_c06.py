"""CBMC: the bloom filter's bits."""
from sx.cbmc import Job, run_all

SRC = '''
#define PM_IMPL
#include "pymodel.h"
#include "lib/bup/_helpers.c"
#include "src/bup/pyutil.c"
static unsigned char *bloom; static unsigned long bloom_len;
static unsigned char in_sha[COUNT * 20 + 1], in_other[20]; static int in_bits; static unsigned in_len;
static int adding; static unsigned char *probe; static int n_release;
void PyBuffer_Release(Py_buffer *b) { n_release++; }
static struct pm_tuple g_res; static int made; static long made_n; static PyObject *made_o; static int is_pair;
static PyObject *build(const char *f, va_list ap) {
    made = 1; is_pair = 0;
    if (f[0] == 'n') made_n = va_arg(ap, Py_ssize_t);
    else if (f[0] == 'O') { is_pair = 1; made_o = va_arg(ap, PyObject *); made_n = 0; }
    else { is_pair = 1; made_o = NULL; made_n = va_arg(ap, int); }
    return (PyObject *)&g_res;
}
PyObject *Py_BuildValue(const char *f, ...) { va_list ap; va_start(ap, f); PyObject *r = build(f, ap); va_end(ap); return r; }
PyObject *_Py_BuildValue_SizeT(const char *f, ...) { va_list ap; va_start(ap, f); PyObject *r = build(f, ap); va_end(ap); return r; }
static int parse(va_list ap) {
    Py_buffer *b = va_arg(ap, Py_buffer *);
    b->buf = bloom; b->len = bloom_len;
    if (adding) { b = va_arg(ap, Py_buffer *); b->buf = in_sha; b->len = in_len; }
    else { *va_arg(ap, unsigned char **) = probe; *va_arg(ap, Py_ssize_t *) = 20; }
    *va_arg(ap, int *) = in_bits;
    *va_arg(ap, int *) = K;
    return 1;
}
int PyArg_ParseTuple(PyObject *a, const char *f, ...) { va_list ap; va_start(ap, f); int r = parse(ap); va_end(ap); return r; }
int _PyArg_ParseTuple_SizeT(PyObject *a, const char *f, ...) { va_list ap; va_start(ap, f); int r = parse(ap); va_end(ap); return r; }
static int contains(unsigned char *s) {
    adding = 0; probe = s; made = 0; n_release = 0;
    PyObject *r = bloom_contains(NULL, NULL);
    CHECK(r && made && is_pair && n_release == 1, "a lookup is answered");
    if (made_o) { CHECK(made_o == Py_None, "an absent object is reported as None"); return 0; }
    CHECK(made_n == 1, "a possibly present object is reported");
    return 1;
}
static unsigned long long in_at;
void monotone(void) {
    pm_init();
    in_bits = nondet_int();
    __CPROVER_assume(in_bits >= MINBITS && in_bits <= MAXBITS);
    for (int i = 0; i < 20; i++) in_other[i] = nondet_uchar();
    bloom_len = 16 + (1UL << in_bits) + TAIL;
    bloom = malloc(bloom_len);
    in_at = nondet_ull(); __CPROVER_assume(in_at < bloom_len);
    if (!contains(in_other)) { REACH("absent"); return; }
    bloom[in_at] |= nondet_uchar();
    REACH("had");
    CHECK(contains(in_other), "ids stay possibly present");
}
void harness(void) {
    pm_init();
    in_bits = nondet_int(); in_len = nondet_uint();
    __CPROVER_assume(in_bits >= MINBITS && in_bits <= MAXBITS);
    in_len = COUNT * 20;
    for (int i = 0; i < COUNT * 20; i++) in_sha[i] = nondet_uchar();
    for (int i = 0; i < 20; i++) in_other[i] = nondet_uchar();
    bloom_len = 16 + (1UL << in_bits) + TAIL;
    bloom = malloc(bloom_len);
    in_at = nondet_ull(); __CPROVER_assume(in_at < bloom_len);
    unsigned char before = bloom[in_at];
    adding = 1; made = 0; n_release = 0;
    PyObject *r = bloom_add(NULL, NULL);
    CHECK(r && made && !is_pair && made_n == in_len / 20, "the number of added ids is returned");
    CHECK(n_release == 2, "the buffers are released");
    REACH("added");
    CHECK((bloom[in_at] & before) == before, "no bit of the filter is lost");
    if (in_at < 16 || in_at >= 16 + (1UL << in_bits)) CHECK(bloom[in_at] == before, "nothing outside the filter bits is changed");
    before = bloom[in_at];
    CHECK(contains(in_sha), "an added id is possibly present");
    if (in_len > 20) CHECK(contains(in_sha + 20 * (COUNT - 1)), "every added id is possibly present");
    CHECK(bloom[in_at] == before, "a lookup changes nothing");
}
'''
REPLAY = '''
import random
from bup import _helpers
rnd = random.Random(3)
def one(bits, k, shas, other, fill):
    m = bytearray(rnd.randbytes(16) + bytes([fill]) * 2**bits + b'tail')
    if fill not in (0, 255): m[16:16 + 2**bits] = rnd.randbytes(2**bits)
    old = bytes(m)
    had = _helpers.bloom_contains(m, other, bits, k)[0]
    if bytes(m) != old: return True
    if _helpers.bloom_add(m, bytearray(b''.join(shas)), bits, k) != len(shas): return True
    if m[:16] != old[:16] or m[16 + 2**bits:] != old[16 + 2**bits:]: return True
    if any((a & b) != b for a, b in zip(m, old)): return True
    if had and not _helpers.bloom_contains(m, other, bits, k)[0]: return True
    return any(not _helpers.bloom_contains(m, s, bits, k)[0] for s in shas)
s, b = bytes(vals.get('in_sha', [])), int(vals.get('in_bits', 0))
shas = [s[i:i + 20] for i in range(0, len(s) - 1, 20)]
if shas and all(len(x) == 20 for x in shas) and b <= 29 and one(b, %(k)d, shas, bytes(vals.get('in_other', [0] * 20)), 0): sys.exit(1)
for t in range(4000):
    b = rnd.choice((0, 1, 2, 3, 5, 8, 12)) if t else 24
    if one(b, %(k)d, [rnd.randbytes(20) for i in range(rnd.randint(1, 3))], rnd.randbytes(20), rnd.choice((0, 1, 255))): sys.exit(1)
sys.exit(0)
'''

def run(workdir, tier, so, seed):
    jobs = []
    deep = tier != 'quick'
    for k in 5, 4:
        for lo, hi in ((0, 29 if k == 5 else 31),):
            count = 3 if deep else 2
            jobs.append(Job('bloom k=%d bits %d to %d' % (k, lo, hi), SRC, unwind=41, unwindset=tuple('%s.%d:%d' % (f, i, n) for f, n in (('bloom_add', k * count + 1), ('bloom_contains', k + 1)) for i in (0, 1)), defines=('K=%d' % k, 'MINBITS=%d' % lo, 'MAXBITS=%d' % hi, 'COUNT=%d' % count, 'TAIL=5', 'PM_BYTES=4'),
                            flags=('--object-bits', '12', '--no-undefined-shift-check'), reach=('added',),
                            timeout=800 if not deep else 5000,
                            functions=['_helpers.c:bloom_add', '_helpers.c:bloom_contains', '_helpers.c:to_bloom_address_bitmask%d' % k],
                            bounds='k=%d, filters of 2**%d to 2**%d bytes with any content, up to %d ids added at once' % (k, lo, hi, count), replay=REPLAY % dict(k=k)))
        jobs.append(Job('bloom k=%d stays' % k, SRC, entry='monotone', unwind=41, unwindset=tuple('bloom_contains.%d:%d' % (i, k + 1) for i in (0, 1)),
                        defines=jobs[-1].defines, flags=jobs[-1].flags, reach=('had', 'absent'), timeout=800 if not deep else 5000,
                        functions=['_helpers.c:bloom_contains'], bounds='k=%d, filters of up to 2**%d bytes: setting any bits keeps ids present' % (k, hi), replay=REPLAY % dict(k=k)))
    return run_all(jobs, workdir, tier, so, seed)
