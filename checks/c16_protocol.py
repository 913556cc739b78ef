META = {
 'level': 'model_checking',
 'assumptions': [
  'in-process link: the server runs once the client waits for its reply (the transport below is C15)',
  'reference names, patterns and object specifications contain no newline and neither start nor end with white space; they are '
  'not empty',
  'the repository below the server yields blob content in nonempty chunks, as git.CatPipe and vfs.join do',
  'metadata is a file system entry with up to one attribute varying over its whole width (field by field encoding is C08); error '
  'messages are a fixed selection of texts',
 ],
}
import io, struct
from functools import partial
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies, ite
from bup import client, protocol, helpers, metadata, vfs, vint, git
from bup.helpers import BaseConn
from bup.metadata import Metadata
from bup.vfs import Item, Chunky, RevList, Root, Tags, Commit, FakeLink

class Time:
    def __init__(self, s, ns): self.s, self.ns = s, ns
    def __eq__(self, o): return isinstance(o, Time) and and_(self.s == o.s, self.ns == o.ns)
    def __ne__(self, o): return not_(self == o)
    def __hash__(self): return 1

def env():
    patch(metadata, 'xstat', SimpleNamespace(nsecs_to_timespec=lambda t: (t.s, t.ns), timespec_to_nsecs=lambda p: Time(p[0], p[1])))
    quiet = lambda *a, **k: None
    for mod in client, protocol:
        for n in ('debug1', 'debug2', 'log', 'progress', 'qprogress', 'fsync'):
            if hasattr(mod, n): patch(mod, n, quiet)

OTHER = dict(uid=1000, gid=100, user=b'usr', group=b'g', rdev=0, linux_attr=None, linux_xattr=None, posix1e_acl=None,
             hardlink_target=None, path=None)
def entry(ctx, n, field='mode'):
    """metadata with one field arbitrary"""
    m = Metadata(frozen=False)
    for k, v in OTHER.items(): setattr(m, k, v)
    m.mode, m.size, m.symlink_target = 0o100644, 7, None
    m.atime, m.mtime, m.ctime = Time(1, 2), Time(3, 4), Time(5, 6)
    if field == 'link': m.mode, m.symlink_target, m.size = 0o120777, ctx.bytes(n, 2), 2
    elif field == 'size': m.size = ctx.int(n, 0, (1 << 63) - 1)
    elif field == 'mtime': m.mtime = Time(ctx.int(n, -(1 << 63), (1 << 63) - 1), 9)
    elif field == 'user': m.user = ctx.bytes(n, 2)
    elif field == 'path': m.path = ctx.bytes(n, 2)
    elif field == 'hardlink': m.hardlink_target = ctx.bytes(n, 2)
    elif field == 'nosize': m.size = None
    else: setattr(m, field, ctx.int(n, 1, (1 << 32) - 1))
    return m.freeze()

def same_meta(ctx, got, want):
    if not isinstance(want, Metadata):
        ctx.check(isinstance(got, int) and got == want, 'mode')
        return
    ctx.check(isinstance(got, Metadata), 'metadata, not a mode')
    for f in ('mode', 'size', 'symlink_target', 'atime', 'mtime', 'ctime', *OTHER):
        a, b = getattr(got, f), getattr(want, f)
        if f == 'path': ctx.check(a is None, 'no path is sent')
        elif f == 'linux_attr': ctx.check((a or 0) == (b or 0), f)
        elif f in ('linux_xattr', 'symlink_target', 'hardlink_target'): ctx.check((a or None) == (b or None), f)
        elif b is None: ctx.check(a is None, 'metadata ' + f)
        else: ctx.check(a is not None and a == b, 'metadata ' + f)

def same_item(ctx, got, want):
    if want is None or got is None:
        ctx.check(got is want, 'a missing item stays missing')
        return
    ctx.check(type(got) is type(want), 'kind of item')
    for f in want._fields:
        if f == 'meta': same_meta(ctx, got.meta, want.meta)
        else: ctx.check(getattr(got, f) == getattr(want, f), 'item ' + f)

def same_resolution(ctx, got, want):
    ctx.check(isinstance(got, tuple) and len(got) == len(want), 'length of the path')
    for g, w in zip(got, want):
        ctx.check(g[0] == w[0], 'name')
        same_item(ctx, g[1], w[1])

KINDS = {'Item': Item, 'Chunky': Chunky, 'RevList': RevList, 'Root': Root, 'Tags': Tags, 'Commit': Commit, 'FakeLink': FakeLink}
def item(ctx, n, kind, meta, size=3):
    """meta: None for a mode, otherwise the metadata field that varies"""
    if kind is None: return None
    c = KINDS[kind]
    d = {}
    for f in c._fields:
        if f == 'meta': d[f] = ctx.int(n + 'mode', 0, (1 << 32) - 1) if meta is None else entry(ctx, n + meta, meta)
        elif f == 'target': d[f] = ctx.bytes(n + f, size)
        else: d[f] = ctx.bytes(n + f, 20)
    return c(**d)

def resolution(ctx, n, shape):
    """shape: ((length of name, kind, meta), ...)"""
    return tuple((ctx.bytes('%s%dname' % (n, i), l), item(ctx, '%s%d' % (n, i), kind, meta)) for i, (l, kind, meta) in enumerate(shape))

def run_item(ctx, kind, meta):
    env()
    it = item(ctx, 'i', kind, meta)
    port = io.BytesIO()
    protocol.write_item(port, it)
    tail = ctx.bytes('tail', 1)
    n = port.tell()
    port = io.BytesIO(port.getvalue() + tail)
    same_item(ctx, protocol.read_item(port), it)
    ctx.check(port.tell() == n, 'exactly the item is consumed')
    ctx.reach('item')

def run_error(ctx, no, msg, shape):
    env()
    e = vfs.IOError(ctx.int('errno', -(1 << 31), (1 << 31) - 1) if no else None, msg, None if shape is None else resolution(ctx, 't', shape))
    port = io.BytesIO()
    protocol.write_ioerror(port, e)
    n = port.tell()
    port = io.BytesIO(port.getvalue() + ctx.bytes('tail', 1))
    same_error(ctx, protocol.read_ioerror(port), e)
    ctx.check(port.tell() == n, 'exactly the error is consumed')
    ctx.reach('error')

def same_error(ctx, got, want):
    ctx.check(type(got) is vfs.IOError, 'kind of error')
    if want.errno is None: ctx.check(got.errno is None, 'no number')
    else: ctx.check(got.errno is not None and got.errno == want.errno, 'number')
    ctx.check(got.strerror == want.strerror, 'message')
    if want.terminus is None: ctx.check(got.terminus is None, 'no terminus')
    else: same_resolution(ctx, got.terminus, want.terminus)

class Buf:
    def __init__(self): self.b = b''
    def write(self, d): self.b = self.b + d
    def flush(self): pass
    def take(self, n):
        r, self.b = self.b[:n], self.b[n:]
        return r
    def line(self):
        i = self.b.find(b'\n')
        return self.take(len(self.b) if i == -1 else i + 1)

class End(BaseConn):
    """One end of a connection; before waiting for input, pump."""
    def __init__(self, inp, outp, pump=None):
        super().__init__(outp)
        self.inp, self.pump = inp, pump
        self._base_closed = True
    def _fill(self):
        if self.pump and not len(self.inp.b): self.pump()
    def _read(self, n):
        self._fill()
        return self.inp.take(n)
    def _readline(self):
        self._fill()
        return self.inp.line()

class Backend:
    def __init__(self, repo): self.repo = repo
    def __call__(self, repo_dir, server=False): return self.repo

def connect(repo, dedup=True):
    """A client connected to a server of repo.  repo.died is the error that ended the server."""
    req, rep = Buf(), Buf()
    repo.repo_dir = b'r'
    real = repo.config_get if hasattr(repo, 'config_get') else None
    def config_get(key, opttype=None):
        if key == b'bup.server.deduplicate-writes': return None if dedup else False
        return real(key, opttype)
    repo.config_get = config_get
    repo.close = lambda: None
    repo.died = None
    srv = protocol.Server(End(req, rep), Backend(repo))
    def pump():
        if repo.died is None and len(req.b): srv.handle()
    c = client.Client.__new__(client.Client)
    c.closed = True
    c.conn = End(rep, req, pump)
    c._transport = SimpleNamespace(conn=c.conn, check_ok=c.conn.check_ok)
    c._busy = None
    c._call = partial(client._TypicalCall, c)
    c._line_based_call = partial(client._LineBasedCall, c)
    c._available_commands = c._get_available_commands()
    c.buffers = req, rep
    return c

def settled(ctx, c):
    """after a request the connection is ready for another one"""
    ctx.check(not c._busy, 'not busy')
    req, rep = c.buffers
    ctx.check(len(req.b) == 0 or req.b == b'\n', 'the server consumed the request')
    ctx.check(len(rep.b) == 0, 'the client consumed the reply')

def run_resolve(ctx, shape, parent, error, want_meta, follow):
    env()
    path = ctx.bytes('path', 2)
    par = None if parent is None else resolution(ctx, 'p', parent)
    res = resolution(ctx, 'r', shape)
    err = vfs.IOError(ctx.int('errno', 1, 1000), 'went wrong', res) if error else None
    calls = []
    class Repo:
        def resolve(self, p, pa, wm, fo):
            calls.append(1)
            ctx.check(p == path, 'the path')
            if par is None: ctx.check(pa is None, 'no parent')
            else: same_resolution(ctx, pa, par)
            ctx.check(wm is want_meta and fo is follow, 'flags')
            if err: raise err
            return res
    c = connect(Repo())
    for _ in range(2):
        try: got = c.resolve(path, parent=par, want_meta=want_meta, follow=follow)
        except vfs.IOError as e:
            ctx.check(error, 'an error only where the server has one')
            same_error(ctx, e, err)
        else:
            ctx.check(not error, 'an error where the server has one')
            same_resolution(ctx, got, res)
        settled(ctx, c)
    ctx.check(len(calls) == 2, 'asked once each')
    ctx.reach('error' if error else 'resolved')

def run_config(ctx, kind, n, opttype, key):
    env()
    val = {'none': lambda: None, 'true': lambda: True, 'false': lambda: False, 'int': lambda: ctx.int('v', -(1 << 64), 1 << 64),
           'bytes': lambda: ctx.bytes('v', n)}[kind]()
    class Repo:
        def config_get(self, k, o):
            ctx.check(k == key.lower() and o == opttype, 'what is asked for')
            return val
    c = connect(Repo())
    allowed = key.lower() in (b'bup.repo.id', b'bup.split.trees', b'bup.split.files', b'pack.packsizelimit', b'core.compression', b'pack.compression')
    try: got = c.config_get(key, opttype)
    except PermissionError:
        ctx.check(not allowed, 'only other options are refused')
        settled(ctx, c)
        ctx.reach('refused')
        return
    ctx.check(allowed, 'other options are refused')
    if val is None or isinstance(val, bool): ctx.check(got is val, 'the same value')
    else: ctx.check(isinstance(got, bytes) == isinstance(val, bytes) and not isinstance(got, bool) and got == val, 'the same value')
    settled(ctx, c)
    ctx.reach('value')

SPACE = b' \t\n\r\x0b\x0c'
def name(ctx, n, length): return ctx.bytes(n, length, exclude=SPACE)

def run_readref(ctx, length, missing):
    env()
    ref = name(ctx, 'ref', length)
    oid = None if missing else ctx.bytes('oid', 20)
    class Repo:
        def read_ref(self, r):
            ctx.check(r == ref, 'the reference')
            return oid
    c = connect(Repo())
    for _ in range(2):
        got = c.read_ref(ref)
        if missing: ctx.check(got is None, 'missing')
        else: ctx.check(got is not None and got == oid, 'the id')
        settled(ctx, c)
    ctx.reach('ref')

def run_updateref(ctx, length, old):
    env()
    ref, new = name(ctx, 'ref', length), ctx.bytes('new', 20)
    old = ctx.bytes('old', 20) if old == 'some' else None if old == 'none' else b''
    calls = []
    class Repo:
        def update_ref(self, r, n, o):
            ctx.check(r == ref, 'the reference')
            ctx.check(n == new, 'the new id')
            ctx.check(o == (old or b''), 'the old id')
            calls.append(1)
    c = connect(Repo())
    c.update_ref(ref, new, old)
    ctx.check(len(calls) == 1, 'updated once')
    settled(ctx, c)
    ctx.reach('updated')

def run_refs(ctx, names, patterns, heads, tags):
    env()
    have = [(name(ctx, 'n%d' % i, l), ctx.bytes('oid%d' % i, 20)) for i, l in enumerate(names)]
    pats = None if patterns is None else [name(ctx, 'p%d' % i, l) for i, l in enumerate(patterns)]
    class Repo:
        def refs(self, ps, h, t):
            ctx.check(bool(h) == heads and bool(t) == tags, 'limits')
            ctx.check(len(ps) == len(pats or ()), 'number of patterns')
            for a, b in zip(ps, pats or ()): ctx.check(a == b, 'pattern')
            return iter(have)
    c = connect(Repo())
    for _ in range(2):
        got = list(c.refs(pats, limit_to_heads=heads, limit_to_tags=tags))
        ctx.check(len(got) == len(have), 'number of references')
        for g, w in zip(got, have): ctx.check(and_(g[0] == w[0], g[1] == w[1]), 'reference')
        settled(ctx, c)
    ctx.reach('refs')

def run_join(ctx, length, blobs, missing):
    env()
    ref = name(ctx, 'ref', length)
    data = [ctx.bytes('b%d' % i, l) for i, l in enumerate(blobs)]
    oid = bytes(range(20))
    class Repo:
        def join(self, r):
            ctx.check(r == ref, 'the object')
            for d in data: yield d
            if missing: raise git.MissingObject(oid)
    c = connect(Repo())
    for _ in range(2):
        got = []
        try:
            for b in c.join(ref): got.append(b)
        except KeyError as e:
            ctx.check(missing, 'complete')
            ctx.check(oid.hex() in str(e), 'says what is missing')
            ctx.reach('missing')
        else:
            ctx.check(not missing, 'an incomplete join is reported')
            ctx.reach('joined')
        ctx.check(b''.join(got) == b''.join(data), 'the content')
        settled(ctx, c)

def run_cat(ctx, objs, stop):
    """objs: chunk sizes of an object, or None for a missing one"""
    env()
    refs = [name(ctx, 'ref%d' % i, 2) for i in range(len(objs))]
    content = [None if o is None else [ctx.bytes('c%d_%d' % (i, j), l) for j, l in enumerate(o)] for i, o in enumerate(objs)]
    oid = [('%02x' % i * 20).encode('ascii') for i in range(len(objs))]
    asked = []
    class Repo:
        def cat(self, r):
            i = len(asked)
            asked.append(1)
            ctx.check(r == refs[i], 'the objects in order')
            if content[i] is None: return None, None, None, None
            return oid[i], b'blob', sum(objs[i]), iter(content[i])
    c = connect(Repo())
    i = 0
    for oidx, typ, size, it in c.cat_batch(refs):
        if content[i] is None: ctx.check(oidx is None and typ is None and size is None and it is None, 'missing')
        else:
            ctx.check(oidx == oid[i] and typ == b'blob' and size == sum(objs[i]), 'id, kind and size')
            ctx.check(b''.join(it) == b''.join(content[i]), 'the content')
        i += 1
    ctx.check(i == len(objs), 'one answer each')
    settled(ctx, c)
    ctx.reach('batch')

def run_revlist(ctx, nrefs, n, fmt, chunk):
    env()
    refs = [name(ctx, 'ref%d' % i, 2) for i in range(nrefs)]
    f = ctx.bytes('fmt', 2, exclude=b'\n') if fmt else None
    oids = [ctx.bytes('oid%d' % i, 4, alphabet=b'0123456789abcdef') + b'%036x' % i for i in range(n)]
    info = [ctx.bytes('info%d' % i, 2, exclude=b'\n') for i in range(n)]
    out = b''.join([b'commit ' + o + b'\n' + d + b'\n' for o, d in zip(oids, info)] if fmt else [o + b'\n' for o in oids])
    class Repo:
        def rev_list_raw(self, rs, f2):
            ctx.check(len(rs) == len(refs), 'number of references')
            for a, b in zip(rs, refs): ctx.check(a == b, 'reference')
            if fmt: ctx.check(f2 is not None and f2 == f, 'format')
            else: ctx.check(f2 is None, 'no format')
            for i in range(0, len(out), chunk): yield out[i:i + chunk]
    c = connect(Repo())
    for _ in range(2):
        arg = refs if nrefs != 1 else refs[0]
        if fmt:
            got = list(c.rev_list(arg, parse=lambda conn: conn.readline(), format=f))
            ctx.check(len(got) == n, 'number of commits')
            for g, o, d in zip(got, oids, info): ctx.check(and_(g[0] == o, g[1] == d + b'\n'), 'commit')
        else:
            got = list(c.rev_list(arg))
            ctx.check(len(got) == n, 'number of commits')
            for g, o in zip(got, oids): ctx.check(g == o, 'commit')
        settled(ctx, c)
    ctx.reach('list')

def run_indexes(ctx, names, dedup):
    env()
    have = [ctx.bytes('n%d' % i, l, exclude=b' \n/') + s for i, (l, s) in enumerate(names)]
    class Repo:
        def list_indexes(self): return iter(have)
    c = connect(Repo(), dedup)
    want = [h for h, (l, s) in zip(have, names) if s == b'.idx']
    got = list(c.list_indexes())
    ctx.check(len(got) == len(want), 'the indexes, nothing else')
    for g, w in zip(got, want): ctx.check(g == w, 'index name')
    settled(ctx, c)
    got = list(c._list_indexes())
    for g in got: ctx.check(g[1] is (not dedup), 'to be loaded exactly when the server does not deduplicate')
    settled(ctx, c)
    ctx.reach('indexes')

def run_sendindex(ctx, n):
    env()
    data = ctx.bytes('data', n)
    nm = name(ctx, 'name', 2)
    ctx.assume(nm.find(b'/') == -1)
    class Repo:
        def send_index(self, na, conn, send_size):
            ctx.check(na == nm + b'.idx', 'the index asked for')
            send_size(len(data))
            conn.write(data)
    c = connect(Repo())
    class F(Buf):
        def fileno(self): return 0
    f = F()
    sizes = []
    c.send_index(nm + b'.idx', f, sizes.append)
    ctx.check(f.b == data, 'the content')
    ctx.check(len(sizes) == 1 and sizes[0] == n, 'the size')
    settled(ctx, c)
    ctx.reach('sent')

def cases(tier):
    deep = tier == 'thorough'
    out = []
    metas = (None, 'mode', 'size') + (('uid', 'mtime', 'link', 'user', 'path', 'hardlink', 'nosize') if deep else ())
    for k in KINDS:
        for m in metas if k in ('Item', 'Commit') or deep else (None, 'mode'):
            out.append(Case('item %s %s' % (k, m or 'plain mode'), run_item, ['item'], bounds='arbitrary ids and modes', kind=k, meta=m))
    one = ((1, 'Root', None), (2, 'Item', 'mode'))
    for no, msg, shape in ((True, 'x', None), (False, 'no \u00e9 \u65e5 \U0001f600', None), (True, '', one), (False, None, one), (True, None, ())):
        out.append(Case('error %s %a %s' % (no, msg, shape and len(shape)), run_error, ['error'], bounds='arbitrary errno, names, items', no=no, msg=msg, shape=shape))
    miss = ((0, 'Root', 'mode'), (3, None, None))
    long = ((0, 'Root', None), (1, 'RevList', None), (2, 'Commit', None), (1, 'FakeLink', None), (3, 'Chunky', 'size'))
    for i, (shape, par, error) in enumerate((one, None, False), ) if False else enumerate((
            (one, None, False), (miss, None, False), (one, one, False), (miss, None, True), ((), None, False)) + (((long, None, False), (long, miss, True)) if deep else ())):
        for wm, fo in ((True, False), (False, True)) if i or not deep else ((a, b) for a in (True, False) for b in (True, False)):
            out.append(Case('resolve %d meta=%d follow=%d' % (i, wm, fo), run_resolve, ['error' if error else 'resolved'], bounds='two requests', shape=shape, parent=par, error=error, want_meta=wm, follow=fo))
    for kind, n, o, key in (('none', 0, None, b'bup.repo.id'), ('true', 0, 'bool', b'bup.split.trees'), ('false', 0, 'bool', b'Bup.Split.Trees'), ('int', 0, 'int', b'pack.packSizeLimit'),
                            ('bytes', 0, None, b'bup.repo.id'), ('bytes', 3, None, b'bup.split.files'), ('none', 0, 'int', b'core.compression'), ('int', 0, 'int', b'pack.compression')):
        out.append(Case('config %s %d %s' % (kind, n, key.decode()), run_config, ['value'], bounds='integers to 2**64', kind=kind, n=n, opttype=o, key=key))
    for key in (b'user.name', b'bup.server.deduplicate-writes', b''):
        out.append(Case('config refused %r' % key, run_config, ['refused'], bounds='-', kind='bytes', n=1, opttype=None, key=key))
    for m in (False, True): out.append(Case('read-ref missing=%d' % m, run_readref, ['ref'], bounds='names of 3 bytes', length=3, missing=m))
    for o in ('some', 'none', 'empty'): out.append(Case('update-ref old=%s' % o, run_updateref, ['updated'], bounds='names of 3 bytes', length=3, old=o))
    for nn, pp in (((), None), ((2,), ()), ((2, 1), (1,)), ((), (2, 1))) + ((((3, 3, 3), (3, 3)),) if deep else ()):
        for h, t in ((False, False), (True, False), (False, True)):
            out.append(Case('refs %s %s heads=%d tags=%d' % (nn, pp, h, t), run_refs, ['refs'], bounds='names and patterns of 1-3 bytes', names=nn, patterns=pp, heads=h, tags=t))
    for bl in ((), (3,), (1, 2)) + (((4, 4, 4),) if deep else ()):
        for m in (False, True): out.append(Case('join %s missing=%d' % (bl, m), run_join, ['missing' if m else 'joined'], bounds='two requests', length=2, blobs=bl, missing=m))
    for ob in ((), ((3,),), ((1, 2), None, ()), (None, (2,))) + ((((4, 4), (5,), None, (3,)),) if deep else ()):
        out.append(Case('cat %s' % (ob,), run_cat, ['batch'], bounds='contents arbitrary', objs=ob, stop=None))
    for nr, n, fm, ch in ((1, 0, False, 50), (1, 2, False, 30), (2, 1, False, 50), (1, 2, True, 17), (2, 1, True, 100)) + (((2, 3, True, 9), (3, 4, False, 11)) if deep else ()):
        out.append(Case('rev-list %d %d fmt=%d chunk=%d' % (nr, n, fm, ch), run_revlist, ['list'], bounds='-', nrefs=nr, n=n, fmt=fm, chunk=ch))
    for nn in ((), ((1, b'.idx'),), ((1, b'.idx'), (2, b'.pack'), (2, b'.idx'))):
        for d in (True, False): out.append(Case('list-indexes %d dedup=%d' % (len(nn), d), run_indexes, ['indexes'], bounds='names of 1-2 bytes', names=nn, dedup=d))
    for n in (1, 4): out.append(Case('send-index %d' % n, run_sendindex, ['sent'], bounds='-', n=n))
    return out
