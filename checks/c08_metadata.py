META = {
 'level': 'model_checking',
 'assumptions': [
  'timestamps split exactly into seconds and nanoseconds and back (C29); the variable length integers of the C helper '
  'equal the Python ones (C07)',
  'strings of up to 3 arbitrary bytes; up to 2 extended attributes; up to two fields vary over their whole width at a '
  'time while the others are fixed',
  'a symlink entry records a size equal to the length of its target (as from_path does), or none',
  'absent and empty are the same for optional fields: path, link targets, attributes, extended attributes and a '
  'default ACL; a file system entry always has a nonzero mode',
 ],
}
import io, stat
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies, ite
from bup import metadata, index
from bup.metadata import Metadata

class Time:
    """a time as its seconds and nanoseconds"""
    def __init__(self, s, ns): self.s, self.ns = s, ns
    def __eq__(self, o): return isinstance(o, Time) and and_(self.s == o.s, self.ns == o.ns)
    def __ne__(self, o): return not_(self == o)
    def __hash__(self): return 1

def env():
    patch(metadata, 'xstat', SimpleNamespace(nsecs_to_timespec=lambda t: (t.s, t.ns), timespec_to_nsecs=lambda p: Time(p[0], p[1])))
    patch(metadata, 'note_error', lambda m: None)

FIELDS = ('mode', 'uid', 'gid', 'user', 'group', 'rdev', 'atime', 'mtime', 'ctime', 'path', 'size', 'symlink_target', 'hardlink_target',
          'linux_attr', 'linux_xattr', 'posix1e_acl')

def u(ctx, n, bits): return ctx.int(n, 0, (1 << bits) - 1)
def text(ctx, n, length): return ctx.bytes(n, length)
def time(ctx, n): return Time(ctx.int(n + '_s', -(1 << 63), (1 << 63) - 1), ctx.int(n + '_ns', 0, 10 ** 9 - 1))

def plain():
    m = Metadata(frozen=False)
    m.mode = 0o100644; m.uid = 1000; m.gid = 100; m.user = b'usr'; m.group = b'grp'; m.rdev = 0
    m.atime, m.mtime, m.ctime = Time(1, 2), Time(3, 4), Time(5, 6)
    m.size = 7; m.path = b'p'
    return m

def vary(ctx, m, field, n):
    """Give the field an arbitrary value."""
    if field in ('uid', 'gid', 'linux_attr'): setattr(m, field, u(ctx, field, 32))
    elif field == 'mode': m.mode = ctx.int('mode', 1, (1 << 32) - 1)
    elif field == 'rdev': m.rdev = u(ctx, field, 64)
    elif field == 'size': m.size = u(ctx, field, 63)
    elif field == 'nosize': m.size = None
    elif field in ('atime', 'mtime', 'ctime'): setattr(m, field, time(ctx, field))
    elif field in ('user', 'group', 'path', 'hardlink_target'): setattr(m, field, text(ctx, field, n))
    elif field == 'symlink_target':
        m.mode = 0o120777; m.symlink_target = text(ctx, field, n); m.size = n
    elif field == 'symlink nosize':
        m.mode = 0o120777; m.symlink_target = text(ctx, field, n); m.size = None
    elif field == 'acl2': m.posix1e_acl = (text(ctx, 'a0', n), text(ctx, 'a1', n))
    elif field == 'acl4':
        m.mode = 0o40755
        m.posix1e_acl = (text(ctx, 'a0', 1), text(ctx, 'a1', n), text(ctx, 'a2', n), text(ctx, 'a3', n))
    elif field == 'xattr0': m.linux_xattr = []
    elif field == 'xattr1': m.linux_xattr = [(text(ctx, 'k0', n), text(ctx, 'v0', n))]
    elif field == 'xattr2': m.linux_xattr = [(text(ctx, 'k0', n), text(ctx, 'v0', 1)), (text(ctx, 'k1', 1), text(ctx, 'v1', n))]
    elif field == 'everything':
        m.path = text(ctx, 'path', 2); m.linux_attr = ctx.int('attr', 1, 127); m.linux_xattr = [(text(ctx, 'k0', 1), text(ctx, 'v0', 1))]
        m.posix1e_acl = (text(ctx, 'a0', 1), text(ctx, 'a1', 1)); m.hardlink_target = text(ctx, 'h', 1)
        m.user, m.group, m.uid = text(ctx, 'user', 1), text(ctx, 'group', 1), ctx.int('uid', 0, 63)
    elif field == 'symlink everything':
        m.path = text(ctx, 'path', 2); m.linux_xattr = [(text(ctx, 'k0', 1), text(ctx, 'v0', 1))]
        m.mode = 0o120777; m.symlink_target = text(ctx, 'link', 2); m.size = 2
        m.user, m.group, m.gid = text(ctx, 'user', 1), text(ctx, 'group', 1), ctx.int('gid', 0, 63)
    else: assert field == 'none', field

def norm(f, v, m):
    """absent and empty are alike"""
    if f == 'size' and v is None and m.symlink_target: return len(m.symlink_target)
    if f in ('path', 'symlink_target', 'hardlink_target', 'linux_xattr', 'linux_attr') and not v: return None
    if f == 'posix1e_acl' and v is not None and len(v) == 4 and v[2] == b'': return v[:2]
    return v

def same(ctx, got, m, path=True):
    for f in FIELDS:
        if f == 'path' and not path:
            ctx.check(got.path is None, 'no path is recorded when not asked for')
            continue
        w, g = norm(f, getattr(m, f), m), getattr(got, f)
        if w is None or g is None: ctx.check(g is w, 'field %s' % f)
        elif f == 'linux_xattr':
            ctx.check(len(g) == len(w), 'number of extended attributes')
            for a, b in zip(g, w): ctx.check(and_(a[0] == b[0], a[1] == b[1]), 'extended attributes')
        elif f == 'posix1e_acl':
            ctx.check(len(g) == len(w), 'number of ACLs')
            for a, b in zip(g, w): ctx.check(a == b, 'ACLs')
        else: ctx.check(g == w, 'field %s' % f)

def run_fields(ctx, fields, n, path):
    env()
    m = plain()
    for f in fields: vary(ctx, m, f, n)
    m.freeze()
    data = m.encode(include_path=path)
    tail = text(ctx, 'tail', 1)
    port = io.BytesIO(data + data + tail)
    got = Metadata.read(port)
    ctx.check(got is not None and got is not metadata.empty_metadata, 'an entry is decoded')
    same(ctx, got, m, path)
    ctx.check(port.tell() == len(data), 'exactly the entry is consumed')
    same(ctx, Metadata.read(port), m, path)
    ctx.check(port.read() == tail, 'nothing after the entry is consumed')
    if path and 'symlink nosize' not in fields:   # there the size is read from the target
        ctx.check(got.encode() == data, 'the decoded entry encodes the same')
    metadata.detailed_bytes(got, fields=['posix1e-acl', 'size', 'uid'])
    ctx.reach('decoded')

def records(data):
    """where the records of an encoded entry begin (the sizes are small)"""
    out, i = [], 0
    while True:
        out.append(i)
        if data[i] == 0: return out
        i += 2 + data[i + 1]

def shape(ctx, kind):
    m = plain()
    vary(ctx, m, kind, 1)
    return m.freeze()

def run_unknown(ctx, kind, tagbytes, n):
    env()
    m = shape(ctx, kind)
    data = m.encode()
    tag = [ctx.int('tag', 12, 127)] if tagbytes == 1 else [ctx.int('t0', 0, 127) + 128, ctx.int('t1', 1, 127)] if tagbytes == 2 else [5]
    rec = bytes(tag) + bytes([n]) + text(ctx, 'content', n)
    spots = records(data)
    at = spots[ctx.choose('at', len(spots))]
    port = io.BytesIO(data[:at] + rec + data[at:])
    got = Metadata.read(port)
    same(ctx, got, m)
    ctx.check(port.read() == b'', 'all consumed')
    ctx.reach('skipped')

def run_truncated(ctx, kind):
    env()
    m = shape(ctx, kind)
    data = m.encode()
    for k in range(len(data)):
        port = io.BytesIO(data[:k])
        try: got = Metadata.read(port)
        except EOFError:
            ctx.reach('refused')
            continue
        ctx.check(k == 0 and got is None, 'a truncated entry is refused')

def run_empty(ctx):
    env()
    e = Metadata()
    ctx.check(e.encode() == b'\0', 'empty metadata encodes as an end record')
    tail = text(ctx, 'tail', 2)
    port = io.BytesIO(b'\0' + tail)
    ctx.check(Metadata.read(port) is metadata.empty_metadata, 'and decodes as empty')
    other = object()
    ctx.check(Metadata.read(io.BytesIO(b'\0'), empty=other) is other, 'or as what was asked for')
    ctx.check(port.read() == tail, 'nothing else is consumed')
    ctx.check(Metadata.read(io.BytesIO(b'')) is None, 'the end of the stream')
    ctx.reach('empty')

def run_old(ctx, version, field, n):
    """common records of earlier versions, which have no size"""
    env()
    from bup import vint
    m = plain()
    vary(ctx, m, field, n)
    m.size = None
    fmt = {1: 'VVsVsVvVvVvV', 2: 'vvsvsvvVvVvV'}[version]
    rec = vint.pack(fmt, m.mode, m.uid, m.user, m.gid, m.group, m.rdev, m.atime.s, m.atime.ns, m.mtime.s, m.mtime.ns, m.ctime.s, m.ctime.ns)
    data = vint.pack('VsVsV', 1, vint.pack('s', m.path), {1: 2, 2: 9}[version], rec, 0)
    same(ctx, Metadata.read(io.BytesIO(data)), m)
    ctx.reach('decoded')

def run_oldacl(ctx, n):
    env()
    from bup import vint
    m = plain(); m.mode = 0o40755
    acls = [text(ctx, 'a%d' % i, n) for i in range(4)]
    rec = vint.pack('ssss', *acls)
    data = m.encode()[:-1] + vint.pack('VsV', 4, rec, 0)
    got = Metadata.read(io.BytesIO(data))
    comma = or_(*[a.find(b',') != -1 for a in acls])
    if got.posix1e_acl is None if isinstance(got.posix1e_acl, type(None)) else False:
        ctx.check(comma, 'only ambiguous ACLs are dropped')
    else:
        ctx.check(not_(comma), 'ambiguous ACLs are dropped')
        for a, g in zip(acls, got.posix1e_acl): ctx.check(g == a.replace(b'\n', b','), 'delimiters are corrected')
        ctx.reach('corrected')

class Disk:
    """append only file"""
    def __init__(self): self.b = b''
    def open(self, name, mode):
        disk = self
        class F:
            pos = 0
            def __enter__(self): return self
            def __exit__(self, *a): pass
            def close(self): pass
            def seek(self, ofs): self.pos = ofs
            def tell(self): return len(disk.b) if mode == 'ab' else self.pos
            def read(self, n):
                r = disk.b[self.pos:self.pos + n]; self.pos += len(r)
                return r
            def write(self, d):
                assert mode == 'ab'
                disk.b = disk.b + d
        return F()

def run_store(ctx, kinds, again):
    """What the index's metadata store is given comes back from the offset it returns, also after reopening."""
    env()
    disk = Disk()
    patch(index, 'open', disk.open)
    patch(index, 'mkdirp', lambda d: None)
    kept = []
    metas = []
    for i, k in enumerate(kinds):
        m = plain(); m.path = None
        m.uid = ctx.int('uid%d' % i, 0, 63)
        if k == 'x': m.linux_attr = ctx.int('attr%d' % i, 1, 127)
        elif k == 'n': m.user = text(ctx, 'user%d' % i, 1)
        elif k == 'e': m = metadata.empty_metadata
        metas.append(m)
    w = index.MetaStoreWriter(b'm')
    for i, m in enumerate(metas):
        if i == again:
            w.close()
            w = index.MetaStoreWriter(b'm')
        kept.append((w.store(m), m))
    w.close()
    with index.MetaStoreReader(b'm') as r:
        for i, (ofs, m) in enumerate(kept):
            got = r.metadata_at(ofs)
            if m is metadata.empty_metadata: ctx.check(got is metadata.empty_metadata, 'empty metadata')
            else: same(ctx, got, m)
            for ofs2, m2 in kept[:i]:
                if ofs2 == ofs: ctx.reach('shared')
                else: ctx.reach('separate')
    ctx.reach('stored')

def cases(tier):
    T = tier == 'thorough'
    r = []
    D = ('decoded',)
    one = [('none', 0)] + [(f, 0) for f in ('uid', 'gid', 'mode', 'rdev', 'size', 'nosize', 'atime', 'mtime', 'ctime', 'linux_attr', 'xattr0')]
    for f in ('user', 'group', 'path', 'hardlink_target', 'symlink_target', 'symlink nosize', 'acl2', 'acl4', 'xattr1', 'xattr2'):
        for n in (0, 1, 3) if not T else (0, 1, 2, 3, 5, 130): one.append((f, n))
    one += [('everything', 0), ('symlink everything', 0)]
    for f, n in one:
        r.append(Case('field %s %d' % (f, n), run_fields, D, bounds='every value of %s%s' % (f, ' of %d bytes' % n if n else ''), fields=(f,), n=n, path=True))
    r.append(Case('without path', run_fields, D, bounds='any path', fields=('path', 'uid'), n=2, path=False))
    pairs = [('uid', 'gid'), ('size', 'uid'), ('mode', 'rdev')] + ([('atime', 'mtime'), ('mtime', 'ctime'), ('size', 'rdev'), ('linux_attr', 'mode'), ('atime', 'size')] if T else [])
    for p in pairs:
        r.append(Case('fields %s %s' % p, run_fields, D, bounds='every pair of values of %s and %s' % p, fields=p, n=1, path=True, weight=5))
    for kind in ('none', 'everything', 'symlink everything', 'acl4'):
        for tagbytes, n in ((1, 0), (1, 2), (2, 1), (0, 1)):
            r.append(Case('unknown record in %s, tag %d, %d' % (kind, tagbytes, n), run_unknown, ('skipped',),
                          bounds='any unknown tag and %d bytes of content at any record boundary' % n, kind=kind, tagbytes=tagbytes, n=n))
        r.append(Case('truncated %s' % kind, run_truncated, ('refused',), bounds='cut anywhere', kind=kind))
    for v in (1, 2):
        for f, n in (('mtime', 0), ('user', 2), ('uid', 0), ('mode', 0)):
            r.append(Case('old common record v%d %s' % (v, f), run_old, D, bounds='every value of %s' % f, version=v, field=f, n=n))
    r.append(Case('old ACL record', run_oldacl, (), bounds='four ACLs of 2 arbitrary bytes', n=2 if T else 1))
    r.append(Case('empty', run_empty, ('empty',), bounds='2 bytes following'))
    for kinds, again in (('xx', None), ('xx', 1), ('nn', 1), ('exe', 2), ('xex', 2)) + ((('xxx', 1), ('nxn', 2), ('nnn', 1)) if T else ()):
        r.append(Case('store %s%s' % (kinds, ' reopened before %d' % again if again else ''), run_store, ('stored',),
                      bounds='entries with arbitrary ids and attributes', kinds=kinds, again=again))
    return r
