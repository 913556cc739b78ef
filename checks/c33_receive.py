META = {
 'level': 'model_checking',
 'assumptions': [
  'the connection is an in-process link which delivers what was sent, apart from the damage under test: one byte of an object or of '
  'its checksum changed, or the connection cut; whenever the client looks for input the server may have kept up with it or not',
  'the filesystem, compression, CRC-32 (which detects any changed byte) and SHA-1 are those of the check of C20; pack lookups answer '
  'as decided for C32',
 ],
}
import os, struct
from functools import partial
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from bup import client, git, protocol
from bup.helpers import BaseConn
from bup.repo import local
from c20_publish import World, File, Node, Dir, oid_of, PACK, RD

CACHE = b'/c'

class Starve(BaseException): pass
class Died(Exception): pass

class ServerEnd(BaseConn):
    """reads what the client has sent; stops where that ends"""
    def __init__(self, link, data):
        super().__init__(self)
        self._base_closed = True
        self.link, self.data, self.pos, self.out = link, data, 0, b''
    def flush(self): pass
    def write(self, b): self.out = self.out + b
    def rest(self, n):
        if len(self.data) - self.pos < n and not self.link.eof: raise Starve()
    def _read(self, n):
        assert n >= 0
        self.rest(n)
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r
    def _readline(self):
        j = self.data.find(b'\n', self.pos)
        if j < 0:
            self.rest(len(self.data) + 1)
            j = len(self.data) - 1
        r = self.data[self.pos:j + 1]
        self.pos = j + 1
        return r

class Link:
    """The client's end.  The server is run again from its beginning on everything it has received so far."""
    def __init__(self, w, dedup):
        self.w, self.sent, self.eof, self.read_pos, self.out, self.died, self.n, self.cut = w, b'', False, 0, b'', None, 0, None
        self.frame, self.damage, self.objs, self.dedup = None, None, 0, dedup
        self.start = {d: dict(w.dirs[d].names) for d in (RD + b'/objects', PACK)}
        self.ran = -1
    # -- the server
    def run(self):
        if self.died or self.ran == len(self.sent) and not self.eof: return
        w = self.w
        for d in list(w.dirs):
            if d.startswith(RD): del w.dirs[d]
        for d, names in self.start.items():
            w.dirs[d] = Dir()
            w.dirs[d].names = dict(names)
            w.dirs[d].sync()
        w.tmp = w.fds = w.updates = 0
        data = self.sent
        if self.cut is not None: data = data[:self.cut]
        conn = ServerEnd(self, data)
        srv = protocol.Server(conn, lambda repo_dir, server: local.LocalRepo(repo_dir or RD, server=server))
        try:
            with Closing(srv) as c:
                try: srv.handle()
                except Starve: c.alive = True
        except Exception as ex:
            self.died = ex
        self.ran = len(self.sent)
        assert conn.out[:len(self.out)] == self.out
        self.out = conn.out
    # -- the client's calls
    def write(self, b):
        obj = len(b) > 24 and b[:4] == struct.pack('!I', len(b) - 4)
        if obj and self.frame is not None and self.frame == self.objs:
            self.w.ctx.reach('damaged')
            k = self.damage
            b = b[:k] + bytes([b[k] ^ self.xor]) + b[k + 1:]
        if obj: self.objs += 1
        self.sent = self.sent + b
    def flush(self): pass
    def has_input(self):
        self.n += 1
        if self.w.ctx.flag('lag%d' % self.n): self.run()
        return len(self.out) > self.read_pos or self.died is not None
    def more(self, n):
        if len(self.out) - self.read_pos < n:
            if self.cut is not None and self.cut < len(self.sent): self.eof = True
            self.run()
    def read(self, n):
        self.more(n)
        r = self.out[self.read_pos:self.read_pos + n]
        self.read_pos += len(r)
        return r
    def readline(self):
        j = self.out.find(b'\n', self.read_pos)
        if j < 0:
            self.more(len(self.out) + 1)
            j = self.out.find(b'\n', self.read_pos)
            if j < 0: j = len(self.out) - 1
        r = self.out[self.read_pos:j + 1]
        self.read_pos = j + 1
        return r
    _check_ok = BaseConn._check_ok
    check_ok = BaseConn.check_ok
    drain_and_check_ok = BaseConn.drain_and_check_ok
    outp = SimpleNamespace(flush=lambda: None)

class ServerWorld(World):
    updates, snapshots = 0, None
    def update_ref(self, args):
        self.updates += 1
        worst = self.found(self.dirs[PACK].durable)
        for o in self.snapshots[self.updates - 1]:
            self.ctx.check(o in worst, 'a reference is only updated when everything sent before is stored')
        self.ctx.check(args[0] == b'refs/heads/b', 'the requested reference is updated')

class Closing:
    """with server: ..., unless the server is still waiting for input"""
    def __init__(self, srv): self.srv, self.alive = srv, False
    def __enter__(self): return self
    def __exit__(self, *a):
        if self.alive: return None
        return self.srv.__exit__(*a)

def connect(ctx, w, dedup, server, cached, extra):
    """A client of a server which has packs (each a list of sizes), of which some are cached by the client."""
    w.install()
    w.lookup = [PACK, CACHE]
    w.snapshots = []
    w.dirs[CACHE] = Dir()
    if not dedup: patch(git, 'git_config_get', lambda c, name, **k: False if name == b'bup.server.deduplicate-writes' else None)
    for cls in (git.LocalPackStore, local.LocalRepo, client.RemotePackStore, client.Client):
        patch(cls, '__del__', lambda self: None)
    for k, sizes in enumerate(server):
        with local.LocalRepo(repo_dir=RD, compression_level=1) as repo:
            for s in sizes: repo.write_data(w.data[oid_of(s)])
        if k in cached:
            for name, node in w.dirs[PACK].names.items():
                if name.endswith(b'.idx') and name not in w.dirs[CACHE].names: w.dirs[CACHE].names[name] = node
    if extra:
        # the index of a pack which the server no longer has
        keep = w.dirs[PACK].names
        w.dirs[PACK] = Dir()
        with local.LocalRepo(repo_dir=RD, compression_level=1) as repo:
            for o in w.data: repo.write_data(w.data[o])
        for name, node in w.dirs[PACK].names.items():
            if name.endswith(b'.idx') and name not in keep: w.dirs[CACHE].names[name] = node
        w.dirs[PACK] = Dir()
        w.dirs[PACK].names = keep
        w.dirs[PACK].sync()
    w.before = w.found(w.dirs[PACK].names)
    link = Link(w, dedup)
    split = lambda p: os.path.split(p)
    patch(client, 'os', SimpleNamespace(path=SimpleNamespace(join=os.path.join, exists=lambda p: split(p)[1] in w.dirs[split(p)[0]].names),
                                        listdir=lambda d: sorted(w.dirs[d].names), unlink=lambda p: w.dirs[split(p)[0]].set(split(p)[1], None)))
    patch(client, 'mkdirp', lambda d: None)
    patch(client, 'fsync', lambda f: None)
    patch(client, 'time', SimpleNamespace(time=lambda: 0, sleep=lambda n: None))
    patch(client, 'zlib', SimpleNamespace(crc32=git.zlib.crc32))
    class Replaced:
        def __init__(self, path, mode): self.path, self.node = path, Node()
        def __enter__(self):
            self.f = File(w, self.node)
            return self.f
        def __exit__(self, t, v, tb):
            self.f.close()
            if t is None: w.dirs[CACHE].set(split(self.path)[1], self.node)
    patch(client, 'atomically_replaced_file', Replaced)
    patch(local, 'os', SimpleNamespace(path=SimpleNamespace(exists=lambda p: False), listdir=lambda d: sorted(w.dirs[d].names)))
    class Idx:
        def __init__(self, p): self.map = w.dirs[split(p)[0]].names[split(p)[1]].data
        def __enter__(self): return self
        def __exit__(self, *a): pass
    patch(git, 'open_idx', Idx)
    c = client.Client.__new__(client.Client)
    c.closed = True
    c.cachedir = CACHE
    c.conn = link
    c._transport = SimpleNamespace(conn=link, check_ok=link.check_ok)
    c._busy = None
    c._call = partial(client._TypicalCall, c)
    c._line_based_call = partial(client._LineBasedCall, c)
    c._available_commands = frozenset((b'receive-objects-v2', b'list-indexes', b'send-index', b'update-ref', b'help'))
    return c, link

def session(ctx, sizes, n, server=(), cached=(), limit=9, dedup=True, damage=None, cut=False, extra=False, twice=False):
    w = ServerWorld(ctx, sizes, 0, ())
    c, link = connect(ctx, w, dedup, server, cached, extra)
    if damage is not None:
        link.frame = ctx.choose('frame', n)
        k = ctx.choose('damage', damage)                    # a byte of the checksum or of the object
        link.damage = 4 + 20 + k
        link.xor = ctx.int('xor', 1, 255)
    if cut: link.cut = ctx.choose('cut', cut)
    hurt = False
    try:
        for again in range(1 + twice):
            pw = c.new_packwriter(compression_level=1, max_pack_objects=limit)
            try:
                for k in range(n):
                    s = sizes[ctx.choose('o%d%d' % (again, k), len(sizes))]
                    o = oid_of(s)
                    ctx.check(pw.new_blob(w.data[o]) == o, 'the id of the object is returned')
                    if o not in w.written: w.written.append(o)
            finally:
                pw.close()
            w.snapshots.append(list(w.written))
            c.update_ref(b'refs/heads/b', oid_of(sizes[0]), None)
            ctx.check(not c._busy, 'the connection is ready for the next request')
            ctx.check(len(link.out) == link.read_pos, 'the client has read everything')
        w.written_all = True
    except Exception as ex:
        if damage is None and not cut: raise (link.died or ex)
        hurt = True
    # the connection ends
    link.eof = True
    link.run()
    if not hurt and damage is None and not cut: ctx.check(link.died is None, 'the server ends normally')
    after = w.found(w.dirs[PACK].names)
    w.verify(w.dirs[PACK].names)
    ctx.check(all(o in after for o in w.before), 'nothing is lost')
    ctx.check(w.fds == 0, 'directories are closed')
    ctx.check(set(d for d in w.dirs if d.startswith(RD)) == {RD + b'/objects', PACK}, 'no temporary files are left')
    if not hurt:
        for o in w.written: ctx.check(o in after, 'everything that was acknowledged is stored')
        ctx.check(sorted(after) == sorted(set(w.before) | set(w.written)), 'nothing else is stored')
        for name in w.dirs[CACHE].names: ctx.check(name in w.dirs[PACK].names, 'the client only knows of packs which the server has')
        counts = {}
        for name, node in w.dirs[PACK].names.items():
            if name.endswith(b'.idx'):
                for o in w.index_oids(node): counts[o] = counts.get(o, 0) + 1
        ctx.check(all(v == 1 for v in counts.values()), 'no object is stored twice')
        if any(o in w.before for o in w.written): ctx.reach('present')
        ctx.reach('stored')
    elif damage is not None:
        ctx.check(link.died is not None, 'the server rejects a damaged object')
        # what was published is only what was complete before
        ctx.check(len(after) <= len(w.before) + (len(w.written) // limit) * limit, 'nothing of the pack with the damaged object is published')
        ctx.reach('rejected')
    else: ctx.reach('cut')

def cases(tier):
    t = tier == 'thorough'
    B = 'objects of any content and %s bytes, any %d writes; the server keeps up or not; '
    S = (1, 3, 17)
    n = 4 if t else 3
    R = ('stored',)
    return [
     Case('empty', session, R, sizes=S, n=n, bounds=B % (S, n) + 'empty repository'),
     Case('limit', session, R, sizes=S, n=n, limit=2, bounds=B % (S, n) + 'packs of 2 objects'),
     Case('limit-1', session, R, sizes=S[:2], n=n, limit=1, bounds=B % (S[:2], n) + 'packs of 1 object'),
     Case('present', session, R + ('present',), sizes=S, n=n, server=((1, 3),), weight=3, bounds=B % (S, n) + 'a pack with two of them is present'),
     Case('present-two', session, R + ('present',), sizes=S, n=n, server=((1,), (3,)), weight=3, bounds=B % (S, n) + 'two packs with one of them are present'),
     Case('present-cached', session, R + ('present',), sizes=S, n=n, server=((1,), (3,)), cached=(0,), weight=3, bounds=B % (S, n) + 'two packs with one of them are present, one cached'),
     Case('present-limit', session, R + ('present',), sizes=S, n=n, server=((3, 17),), limit=1, weight=3, bounds=B % (S, n) + 'a pack is present; packs of 1 object'),
     Case('extra', session, R, sizes=S[:2], n=n, extra=True, bounds=B % (S[:2], n) + 'the cache has an index which the server has not'),
     Case('twice', session, R + ('present',), sizes=S[:2], n=2, server=((1,),), twice=True, weight=3, bounds=B % (S[:2], 2) + 'two sessions on one connection'),
     Case('load', session, R + ('present',), sizes=S, n=n, server=((1,), (3,)), dedup=False, bounds=B % (S, n) + 'server does not deduplicate; two packs are present'),
     Case('load-cached', session, R + ('present',), sizes=S, n=2, server=((1,), (3,)), cached=(0,), dedup=False, twice=True, weight=3,
          bounds=B % (S, 2) + 'server does not deduplicate; two packs are present, one cached; two sessions'),
     Case('damage', session, ('rejected', 'stored'), sizes=S[:2], n=2, damage=7, weight=3, bounds=B % (S[:2], 2) + 'any change of one byte of the checksum or the object'),
     Case('damage-limit', session, ('rejected', 'stored'), sizes=S[:2], n=n if t else 2, damage=7, limit=1, weight=3, bounds=B % (S[:2], n if t else 2) + 'packs of 1 object; any change of one byte'),
     Case('damage-present', session, ('rejected', 'stored'), sizes=S[:2], n=2, damage=7, server=((1,),), weight=3, bounds=B % (S[:2], 2) + 'one is present; any change of one byte'),
     Case('cut', session, ('cut', 'stored') if t else ('cut',), sizes=S[:2], n=2, cut=260 if t else 90, weight=4, bounds=B % (S[:2], 2) + 'the connection is cut after any number of bytes (at most 259, quick 89)'),
    ]
