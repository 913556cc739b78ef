META = {
 'level': 'model_checking',
 'assumptions': [
  'the filesystem is a stand-in: a crash keeps the content a file had when it was last synced, and, of the changes made to a directory, '
  'all those before its last sync and then any number of the following ones, in order; a failing call raises OSError, a failing write '
  'may have written part of its data',
  'the caller does what bup save does: an OSError concerns the object being written, which is left out, anything else ends the save',
  'compression, CRC-32 and SHA-1 are modelled as injective functions of their input; the C function that fills an index from the '
  'collected entries is modelled here and decided for property C04; which objects published packs contain is modelled here and decided '
  'for property C32; git update-ref is atomic and durable',
 ],
}
import errno, os, struct
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from bup import git
from bup.helpers import ObjectLocation, OBJECT_EXISTS
from bup.repo import local

RD = b'/r'
PACK = b'/r/objects/pack'

class Node:
    def __init__(self): self.data, self.dirty, self.writers = b'', True, set()

class Dir:
    """the names in a directory, and the changes which are not known to have reached the disk"""
    def __init__(self): self.names, self.durable, self.pending = {}, {}, []
    def set(self, name, node):
        self.pending.append((name, node))
        if node is None: del self.names[name]
        else: self.names[name] = node
    def sync(self):
        self.durable, self.pending = dict(self.names), []
    def states(self):
        """what may be found after a crash"""
        cur = dict(self.durable)
        yield cur
        for name, node in self.pending:
            cur = dict(cur)
            if node is None: cur.pop(name, None)
            else: cur[name] = node
            yield cur

class File:
    def __init__(self, w, node, append=False):
        self.w, self.node, self.append, self.pos, self.closed = w, node, append, 0, False
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def fileno(self): return self
    def tell(self): return self.pos
    def seek(self, n, whence=0):
        if self in self.node.writers: self.flush()
        self.pos = n if whence == 0 else self.pos + n if whence == 1 else len(self.node.data) + n
        return self.pos
    def read(self, n=None):
        if self in self.node.writers: self.flush()
        assert not self.closed
        d = self.node.data
        r = d[self.pos:] if n is None or n < 0 else d[self.pos:self.pos + n]
        self.pos += len(r)
        return r
    def put(self, b):
        d = self.node.data
        if self.append: self.pos = len(d)
        assert self.pos <= len(d)
        self.node.data = d[:self.pos] + b + d[self.pos + len(b):]
        self.pos += len(b)
        self.node.dirty = True
        self.node.writers.add(self)
    def write(self, b):
        assert not self.closed
        if self.w.failing('write'):
            self.put(b[:len(b) // 2])
            self.w.fail()
        self.put(b)
        self.w.step()
        return len(b)
    def truncate(self, n):
        self.w.op('truncate')
        d = self.node.data[:n]
        self.node.data = d + bytes(n - len(d))
        self.node.dirty = True
    def flush(self):
        assert not self.closed
        if self in self.node.writers: self.w.op('flush')
        self.node.writers.discard(self)
    def close(self):
        if self.closed: return
        self.closed = True
        self.node.writers.discard(self)

class Map:
    def __init__(self, f): self.node, self.els = f.node, list(f.node.data)
    def __setitem__(self, k, v): self.els[k] = list(v)
    def flush(self): self.close()
    def close(self):
        self.node.data, self.node.dirty = bytes(self.els), True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

class TempDir:
    def __init__(self, w, path): self.w, self.path = w, path
    def __enter__(self): return self.path
    def __exit__(self, *a): self.w.rmtree(self.path)

class OS:
    def __init__(self, w):
        self.w = w
        self.path = os.path
        for n in ('O_RDONLY', 'O_RDWR', 'O_CREAT', 'O_DIRECTORY', 'SEEK_SET', 'SEEK_END', 'SEEK_CUR'): setattr(self, n, getattr(os, n))
    def open(self, p, flags, **kw):
        self.w.op('open')
        self.w.dirs[p]
        self.w.fds += 1
        return SimpleNamespace(dir=self.w.dirs[p])
    def close(self, fd): self.w.fds -= 1
    def rename(self, a, b):
        self.w.op('rename', False)
        da, na = os.path.split(a)
        db, nb = os.path.split(b)
        if na not in self.w.dirs[da].names: raise FileNotFoundError(errno.ENOENT, 'none', a)
        node = self.w.dirs[da].names[na]
        self.w.dirs[da].set(na, None)
        self.w.dirs[db].set(nb, node)
        self.w.step()
    replace = rename
    def unlink(self, p):
        d, n = os.path.split(p)
        self.w.dirs[d].set(n, None)
        self.w.step()
    def fsync(self, fd): self.w.fsync(fd)
    fdatasync = fsync

def model_crc(b):
    n = len(b) << 20
    for i in range(len(b)): n = n + b[i] * (2 * i + 257)     # (any two values with one byte different differ)
    return n

class Zip:
    """compression as the buffering compressor does it: some of the data comes out late"""
    def __init__(self, level=-1): self.rest = b''
    def compress(self, b):
        self.rest = self.rest + b[1:]
        return b'z' + b[:1]
    def flush(self): return self.rest + b'.'

class Sha:
    seen = []
    def __init__(self, b=b''): self.b = b
    def update(self, b): self.b = self.b + b
    def digest(self):
        if self.b[:5] == b'blob ':
            n = len(self.b) - self.b[:12].find(b'\0') - 1
            return oid_of(n)
        for i, s in enumerate(Sha.seen):
            if len(s) == len(self.b) and s == self.b: break
        else:
            i = len(Sha.seen)
            Sha.seen.append(self.b)
        return b'%020d' % i

def oid_of(n): return bytes([7 * n % 256]) + b'%019d' % n       # objects have distinct sizes

def header(n):
    """the header of a blob of n bytes in a pack"""
    if n < 16: return bytes([0x30 | n])
    assert n < 2048
    return bytes([0xb0 | (n & 15), n >> 4])

class World:
    def __init__(self, ctx, sizes, fails, flaky):
        self.ctx, self.fails, self.count, self.nfail, self.flaky = ctx, fails, 0, 0, flaky
        self.dirs = {RD + b'/objects': Dir(), PACK: Dir()}
        self.fds = self.tmp = 0
        self.data = {oid_of(n): ctx.bytes('d%d' % n, n) for n in sizes}
        self.at = [ctx.int('fail%d' % i, 0, 1000) for i in range(fails)]
        self.failed = False
        self.where = []
    # -- failures and crashes
    def failing(self, kind):
        self.count += 1
        if self.nfail < self.fails and self.at[self.nfail] == self.count:
            self.nfail += 1
            self.where.append(kind)
            self.failed = True
            self.ctx.reach('fails-' + kind)
            return True
        return False
    def fail(self): raise OSError(errno.ENOSPC, 'No space left on device')
    def op(self, kind, step=True):
        if self.failing(kind): self.fail()
        if step: self.step()
    def step(self):
        """what must hold whenever everything stops here"""
        for st in self.dirs[PACK].states():
            for name, node in st.items():
                if not name.endswith(b'.idx'): continue
                pack = st.get(name[:-4] + b'.pack')
                self.ctx.check(pack is not None, 'an index is only visible when its pack is')
                self.ctx.check(not pack.dirty and not node.dirty, 'published files are complete on disk')
    # -- calls
    def open(self, p, mode='r', *a, **kw):
        self.op('create')
        d, n = os.path.split(p)
        if 'w' in mode:
            node = Node()
            self.dirs[d].set(n, node)
        else:
            if n not in self.dirs[d].names: raise FileNotFoundError(errno.ENOENT, 'none', p)
            node = self.dirs[d].names[n]
        return File(self, node, 'a' in mode)
    def fsync(self, f):
        self.op('fsync')
        if isinstance(f, File):
            f.node.dirty = bool(f.node.writers)
        else: f.dir.sync()
    def temp_dir(self, dir=None, prefix=b''):
        self.op('mkdtemp')
        self.tmp += 1
        p = dir + b'/' + prefix + b'%d' % self.tmp
        self.dirs[p] = Dir()
        return TempDir(self, p)
    def rmtree(self, p, *a, **kw):
        self.op('rmtree')
        if p not in self.dirs: raise FileNotFoundError(errno.ENOENT, 'none', p)
        del self.dirs[p]
    def write_idx(self, name, m, idx, count):
        es = [e for sec in idx for e in sec]
        es.sort(key=lambda e: e[0])
        fan = [len([e for e in es if e[0][0] <= i]) for i in range(256)]
        b = b'\377tOc\0\0\0\2' + struct.pack('!256I', *fan) + b''.join(e[0] for e in es) \
            + b''.join(struct.pack('!I', e[1]) for e in es) + b''.join(struct.pack('!I', e[2]) for e in es)
        m[0:len(b)] = b
        return len(es)
    # -- what the packs contain
    def index_oids(self, node):
        d = node.data
        n = struct.unpack('!I', d[8 + 255 * 4:8 + 256 * 4])[0]
        return [bytes(d[1032 + 20 * i:1052 + 20 * i]) for i in range(n)]
    def found(self, st):
        return {o: name for name, node in st.items() if name.endswith(b'.idx') for o in self.index_oids(node)}
    def verify(self, st):
        """every published pack is what its index says"""
        ctx = self.ctx
        for name, node in st.items():
            if not name.endswith(b'.idx'): continue
            pack, idx = st[name[:-4] + b'.pack'].data, node.data
            oids = self.index_oids(node)
            n = len(oids)
            ctx.check(n > 0, 'no empty pack is published')
            ctx.check(len(idx) == 1032 + 28 * n + 40, 'an index is complete')
            want, offs = b'PACK' + struct.pack('!II', 2, n), {}
            order = sorted(range(n), key=lambda i: struct.unpack('!I', idx[1032 + 24 * n + 4 * i:1032 + 24 * n + 4 * i + 4])[0])
            for i in order:
                o = oids[i]
                b = header(len(self.data[o])) + b'z' + self.data[o] + b'.'
                ctx.check(struct.unpack('!I', idx[1032 + 24 * n + 4 * i:1032 + 24 * n + 4 * i + 4])[0] == len(want), 'an object is where its index entry says')
                ctx.check(struct.unpack('!I', idx[1032 + 20 * n + 4 * i:1032 + 20 * n + 4 * i + 4])[0] == model_crc(b), 'the recorded checksum is that of the object')
                want = want + b
            ctx.check(len(pack) == len(want) + 20, 'a pack consists of its objects')
            ctx.check(pack[:-20] == want, 'a pack has the content of the objects')
            sha = Sha(want).digest()
            ctx.check(and_(pack[-20:] == sha, idx[-40:-20] == sha), 'pack and index end with the checksum of the pack')
            ctx.check(idx[-20:] == Sha(idx[:-20]).digest(), 'an index ends with its checksum')
            ctx.check(name == b'pack-' + sha.hex().encode() + b'.idx', 'a pack is named after its checksum')

    def install(self):
        Sha.seen = []
        self.lookup = [PACK]
        patch(git, 'os', OS(self))
        patch(git, 'open', self.open)
        patch(git, 'temp_dir', self.temp_dir)
        patch(git, 'rmtree', self.rmtree)
        patch(git, 'fsync', self.fsync)
        patch(git, 'fdatasync', self.fsync) if hasattr(git, 'fdatasync') else None
        patch(git, 'Sha1', Sha)
        patch(git, 'zlib', SimpleNamespace(crc32=model_crc, compressobj=Zip))
        patch(git, 'mmap_readwrite', lambda f, close=True: Map(f))
        patch(git, '_helpers', SimpleNamespace(write_idx=self.write_idx))
        patch(git, 'auto_midx', lambda d: self.op('midx') if d == PACK else None)
        w = self
        class Packs:
            def __init__(self, d):
                w.ctx.check(d in w.lookup, 'packs are looked up in the repository')
                self.dir = d
                self.refresh()
            def refresh(self): self.oids = w.found(w.dirs[self.dir].names)
            def close_temps(self): pass
            def exists(self, oid, want_source=False):
                if oid not in self.oids: return None
                return ObjectLocation(self.oids[oid], None) if want_source else OBJECT_EXISTS
            def __enter__(self): return self
            def __exit__(self, *a): pass
            def close(self): pass
        patch(git, 'PackIdxList', Packs)
        patch(git, 'catpipe', lambda d: None)
        patch(git, '_gitenv', lambda d=None: {})
        def run(cmd, **kw):
            assert cmd[:2] == [b'git', b'update-ref'], cmd
            self.update_ref(cmd[2:])
            return SimpleNamespace(returncode=0)
        patch(git, 'subprocess', SimpleNamespace(run=run))
        patch(local, 'realpath', lambda p: p)
        patch(git, 'git_config_get', lambda *a, **k: None)
        self.written, self.refs, self.pre = [], 0, set()

    def update_ref(self, args):
        self.refs += 1
        worst = self.found(self.dirs[PACK].durable)
        for o in self.written:
            self.ctx.check(o in worst, 'a reference is only updated after everything written before is in a pack on disk')
        self.ctx.check(args[0] == b'refs/heads/b', 'the requested reference is updated')
        self.ctx.reach('ref')

def seq(ctx, sizes, n, fails=0, abort=False, flaky=(), limit=2, ends=('ref',), dup=False):
    """n writes of objects, then the end of the save"""
    w = World(ctx, sizes, fails, flaky)
    w.install()
    lim = {}
    if limit: lim['max_pack_objects'] = limit
    else: lim['max_pack_size'] = ctx.int('max', 1, 200)
    repo = local.LocalRepo(repo_dir=RD, compression_level=1, **lim)
    try:
        try:
            aborted = False
            for k in range(n):
                s = sizes[ctx.choose('o%d' % k, len(sizes))]
                o = oid_of(s)
                try:
                    got = repo.write_data(w.data[o])
                    ctx.check(got == o, 'the id of the object is returned')
                    if o not in w.written: w.written.append(o)
                except OSError:
                    ctx.reach('skipped')
            if abort:
                before = dict(w.dirs[PACK].names)
                repo.abort_writing()
                aborted = True
                ctx.check(w.dirs[PACK].names == before, 'an aborted pack is not published')
            else:
                repo.update_ref(b'refs/heads/b', oid_of(sizes[0]), None)
        finally:
            repo.close()
        ctx.check(aborted or w.refs == 1, 'the reference is updated')
        if not aborted:
            st = w.found(w.dirs[PACK].durable)
            for o in w.written: ctx.check(o in st, 'everything that was written is in a pack')
            if not w.failed: ctx.check(len(set(st)) == len(w.written), 'nothing else is in a pack')
        if not w.failed: ctx.reach('complete')
        elif not aborted: ctx.reach('recovered')
    except Exception:
        ctx.check(w.failed, 'without failures a save succeeds')
        ctx.reach('gave up')
    finally:
        repo.closed = True
    w.verify(w.dirs[PACK].names)
    for name in w.dirs[PACK].names:
        ctx.check(name.endswith(b'.pack') or name.endswith(b'.idx'), 'only packs are published')
    ctx.check(w.fds == 0, 'directories are closed')
    if 'rmtree' not in w.where:
        ctx.check(set(w.dirs) == {RD + b'/objects', PACK}, 'no temporary files are left')
    counts = {}
    for name, node in w.dirs[PACK].names.items():
        if name.endswith(b'.idx'):
            for o in w.index_oids(node): counts[o] = counts.get(o, 0) + 1
    ctx.check(all(c == 1 for c in counts.values()), 'no object is stored twice')

def fresh(ctx, n):
    """several saves with one repository object: what the first has published is not stored again"""
    w = World(ctx, (1, 2), 0, ())
    w.install()
    with local.LocalRepo(repo_dir=RD, compression_level=1) as repo:
        for k in range(n):
            if ctx.flag('ref%d' % k): repo.update_ref(b'refs/heads/b', oid_of(1), None)
            o = oid_of((1, 2)[ctx.choose('o%d' % k, 2)])
            repo.write_data(w.data[o])
            if o not in w.written: w.written.append(o)
    st = w.found(w.dirs[PACK].durable)
    ctx.check(sorted(st) == sorted(w.written), 'exactly what was written is in a pack')
    w.verify(w.dirs[PACK].names)
    ctx.reach('done')

F = ('fails-create', 'fails-write', 'fails-fsync', 'fails-rename', 'fails-mkdtemp', 'fails-flush', 'fails-rmtree', 'fails-open')
def cases(tier):
    t = tier == 'thorough'
    B = 'objects of any content and %s bytes, any %d writes; '
    return [
     Case('save', seq, ('complete', 'ref'), sizes=(1, 3, 17), n=6 if t else 4, bounds=B % ('1, 3, 17', 6 if t else 4) + 'packs of at most 2 objects; crash at any point'),
     Case('save-size', seq, ('complete', 'ref'), sizes=(1, 3, 17), n=5 if t else 4, limit=0, bounds=B % ('1, 3, 17', 5 if t else 4) + 'any maximum pack size; crash at any point'),
     Case('save-fail', seq, ('complete', 'ref', 'gave up', 'skipped', 'recovered') + F, sizes=(1, 3, 17), n=5 if t else 4, fails=1, weight=4, budget=1500,
          bounds=B % ('1, 3, 17', 5 if t else 4) + 'packs of at most 2 objects; any one call fails'),
     Case('save-fail-1', seq, ('complete', 'ref', 'gave up', 'skipped', 'recovered') + F, sizes=(1, 3), n=3, fails=2 if t else 1, limit=1, weight=3, budget=1500,
          bounds=B % ('1, 3', 3) + 'one object in a pack; any one (thorough: two) calls fail'),
     Case('save-fail-one-pack', seq, ('complete', 'ref', 'gave up', 'skipped') + F, sizes=(1, 3), n=3, fails=2 if t else 1, limit=9, weight=3, budget=1500,
          bounds=B % ('1, 3', 3) + 'one pack; any one (thorough: two) calls fail'),
     Case('abort', seq, ('complete',), sizes=(1, 3), n=3, abort=True, bounds=B % ('1, 3', 3) + 'then the pack is aborted'),
     Case('abort-fail', seq, ('complete', 'gave up'), sizes=(1, 3), n=2, abort=True, fails=1, limit=9, bounds=B % ('1, 3', 2) + 'then the pack is aborted; any one call fails'),
     Case('several', fresh, ('done',), n=4 if t else 3, bounds='any %d writes, with references updated between them' % (4 if t else 3)),
    ]
