META = {
 'level': 'model_checking',
 'cbmc': 'cbmc_c07',
 'assumptions': [
  'integers within +-2**80, byte vectors up to 3 bytes, records of up to 3 items',
  'the native encoders are decided separately by CBMC over their whole 64-bit domain; '
  'the symbolic Python run uses their specification',
 ],
}
from io import BytesIO
from sx.harness import Case
from sx.num import ite
from bup import vint


def same(a, b):
    return a == b


def c_vuint(ctx, lo, hi):
    x = ctx.int('x', lo, hi)
    tail = ctx.bytes('tail', 1)
    out = BytesIO()
    vint.write_vuint(out, x)
    data = out.getvalue()
    ctx.check(data == vint.encode_vuint(x), 'write and encode agree')
    port = BytesIO(data + tail)
    y = vint.read_vuint(port)
    ctx.check(same(y, x), 'vuint decodes to what was encoded')
    ctx.check(port.read() == tail, 'vuint consumed exactly its bytes')
    # every truncation is an error or end of file, never a value
    n = ctx.choose('cut', len(data))
    port = BytesIO(data[:n])
    try:
        r = vint.read_vuint(port)
    except EOFError:
        ctx.check(n > 0, 'EOFError only inside a value')
        return
    ctx.check(r is None and n == 0, 'truncated vuint never decodes')


def c_vint(ctx, lo, hi):
    x = ctx.int('x', lo, hi)
    tail = ctx.bytes('tail', 1)
    out = BytesIO()
    vint.write_vint(out, x)
    data = out.getvalue()
    ctx.check(data == vint.encode_vint(x), 'write and encode agree')
    port = BytesIO(data + tail)
    y = vint.read_vint(port)
    ctx.check(same(y, x), 'vint decodes to what was encoded')
    ctx.check(port.read() == tail, 'vint consumed exactly its bytes')
    n = ctx.choose('cut', len(data))
    port = BytesIO(data[:n])
    try:
        r = vint.read_vint(port)
    except EOFError:
        ctx.check(n > 0, 'EOFError only inside a value')
        return
    ctx.check(r is None and n == 0, 'truncated vint never decodes')


def c_bvec(ctx, n):
    v = ctx.bytes('v', n)
    tail = ctx.bytes('tail', 2)
    out = BytesIO()
    vint.write_bvec(out, v)
    data = out.getvalue()
    ctx.check(data == vint.encode_bvec(v), 'write and encode agree')
    port = BytesIO(data + tail)
    ctx.check(vint.read_bvec(port) == v, 'bvec decodes to what was encoded')
    ctx.check(port.read() == tail, 'bvec consumed exactly its bytes')
    port = BytesIO(data + tail)
    vint.skip_bvec(port)
    ctx.check(port.read() == tail, 'skipping a bvec consumes exactly it')
    cut = ctx.choose('cut', len(data))
    port = BytesIO(data[:cut])
    try:
        r = vint.read_bvec(port)
    except EOFError:
        r = None
    ctx.check(r is None, 'truncated bvec never decodes')
    port = BytesIO(data[:cut])
    try:
        vint.skip_bvec(port)
    except EOFError:
        return
    ctx.check(False, 'truncated bvec is not skipped silently')


def c_record(ctx, types, sizes, small):
    args = []
    for i, t in enumerate(types):
        if t == 's':
            args.append(ctx.bytes('a%d' % i, sizes[i]))
        elif t == 'V':
            args.append(ctx.int('a%d' % i, 0, (1 << 14) - 1 if small else (1 << 70) - 1))
        else:
            args.append(ctx.int('a%d' % i, -(1 << 14) if small else -(1 << 70), (1 << 14) - 1 if small else (1 << 70) - 1))
    data = vint.pack(types, *args)
    got = vint.unpack(types, data)
    ctx.check(len(got) == len(args), 'all items returned')
    for g, a in zip(got, args):
        ctx.check(same(g, a), 'record decodes to what was encoded')
    tail = ctx.bytes('tail', 1)
    out = BytesIO()
    vint.send(out, types, *args)
    ctx.check(out.getvalue() == data, 'send and pack agree')
    port = BytesIO(data + tail)
    got = vint.recv(port, types)
    for g, a in zip(got, args):
        ctx.check(same(g, a), 'received record equals the sent one')
    ctx.check(port.read() == tail, 'record consumed exactly its bytes')
    cut = ctx.choose('cut', len(data))
    try:
        vint.unpack(types, data[:cut])
    except EOFError:
        return
    ctx.check(False, 'truncated record never decodes')


def cases(tier):
    R = ('vuint decodes to what was encoded', 'vuint consumed exactly its bytes')
    S = ('vint decodes to what was encoded', 'vint consumed exactly its bytes')
    top = 80 if tier == 'quick' else 130
    out = [Case('vuint 0..2^63', c_vuint, R, lo=0, hi=(1 << 63) - 1, bounds='0 <= x < 2^63'),
           Case('vuint 2^63..2^%d' % top, c_vuint, R, lo=1 << 63, hi=(1 << top) - 1, bounds='2^63 <= x < 2^%d' % top),
           Case('vint -2^63..2^63', c_vint, S, lo=-(1 << 63), hi=(1 << 63) - 1, bounds='all 64-bit integers'),
           Case('vint >= 2^63', c_vint, S, lo=1 << 63, hi=(1 << top) - 1, bounds='2^63 <= x < 2^%d' % top),
           Case('vint < -2^63', c_vint, S, lo=-(1 << top), hi=-(1 << 63) - 1, bounds='-2^%d <= x < -2^63' % top)]
    for n in range(4 if tier == 'quick' else 7):
        out.append(Case('bvec %d' % n, c_bvec, ('bvec decodes to what was encoded',), n=n, bounds='%d bytes' % n))
    import itertools
    k = 2 if tier == 'quick' else 3
    for types in itertools.product('Vvs', repeat=k):
        out.append(Case('record ' + ''.join(types), c_record, ('record decodes to what was encoded',),
                        types=''.join(types), sizes=(2, 0, 1), small=True, bounds='|ints| < 2^14, bvec <= 2 bytes'))
    for t in 'Vv':
        out.append(Case('record big ' + t, c_record, ('record decodes to what was encoded',),
                        types=t, sizes=(), small=False, bounds='|ints| < 2^70'))
    return out
