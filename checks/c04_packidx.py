META = {
 'level': 'model_checking', 'cbmc': 'cbmc_c04',
 'assumptions': [
  'a pack has between one and four (five) objects with distinct ids; the first bytes of the ids are taken from a few representative values, the rest is arbitrary',
  'the index writer in C is decided with CBMC for up to three (four) objects, and replaced by what it was shown to write in the Python checks',
  'the content checksum at the end of the index is that of everything before it (SHA-1 itself is not modelled)',
 ],
}
import builtins, os, struct, tempfile
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies, ite
from sx.seq import SymBytes
from bup import git

FIRST = {1: (0, 1, 128, 255), 2: (0, 128, 255), 3: (0, 255), 4: (7,)}

def ids(ctx, n, tag='id', tail=19):
    """n distinct ids in order"""
    out, least = [], 0
    for i in range(n):
        least += ctx.choose('%s%d_first' % (tag, i), len(FIRST[n]) - least)
        out.append(bytes([FIRST[n][least]]) + b'\0' * (19 - tail) + ctx.bytes('%s%d' % (tag, i), tail))
        if i: ctx.assume(out[i - 1] < out[i])
    return out

def be(ctx, v, n):
    return struct.pack('!I' if n == 4 else '!Q', v)

def fanout(objs):
    out, n, i = b'', 0, 0
    for b in range(256):
        while i < len(objs) and objs[i][0][0] == b: i += 1
        out += struct.pack('!I', i)
    return out

def spec_v2(ctx, objs):
    """the version 2 index of (id, checksum, offset) in order, as git documents it"""
    out = b'\xfftOc\0\0\0\2' + fanout(objs)
    for o in objs: out = out + o[0]
    for o in objs: out = out + be(ctx, o[1], 4)
    big = []
    for o in objs:
        if o[2] >= 2 ** 31:
            out = out + be(ctx, 0x80000000 | len(big), 4)
            big.append(o[2])
        else: out = out + be(ctx, o[2], 4)
    for o in big: out = out + be(ctx, o, 8)
    return out

def spec_v1(ctx, objs):
    out = fanout(objs)
    for o in objs: out = out + be(ctx, o[2], 4) + o[0]
    return out

class SymMap:
    """a read-only map of symbolic content"""
    def __init__(self, data): self.data = data
    def __getitem__(self, k): return self.data[k]
    def __len__(self): return len(self.data)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self.data = None

class List(list):
    def __new__(cls, *a): return list.__new__(cls)
    def __init__(self, kind, items): list.__init__(self, items)

class F:
    """an open file with content"""
    def __init__(self, data): self.data, self.pos, self.closed = data, 0, False
    def read(self, n=-1):
        out = self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out
    def fileno(self): return 3
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self.closed = True

class Struct_:
    """struct that takes symbolic maps"""
    pack, error = staticmethod(struct.pack), struct.error
    @staticmethod
    def unpack_from(fmt, m, offset=0): return struct.unpack_from(fmt, m.data if isinstance(m, SymMap) else m, offset)
    @staticmethod
    def unpack(fmt, m): return struct.unpack(fmt, m.data if isinstance(m, SymMap) else m)

def install(ctx, opener, mapper):
    patch(git, 'open', opener)
    patch(git, 'array', List)
    patch(git, 'mmap_read', mapper)
    patch(git, 'memoryview', lambda m: m.data)
    patch(git, 'struct', Struct_)

def open_index(ctx, content):
    """open_idx of an index file with the content"""
    if not ctx.symbolic:
        with tempfile.NamedTemporaryFile(suffix='.idx') as f:
            f.write(content)
            f.flush()
            return git.open_idx(f.name.encode('ascii')), os.path.basename(f.name.encode('ascii'))
    install(ctx, lambda name, mode: F(content), lambda f: SymMap(f.data))
    return git.open_idx(b'/p/pack-x.idx'), b'pack-x.idx'

def lookups(ctx, ix, name, objs, n_find):
    n = len(objs)
    ctx.check(len(ix) == n, 'the index knows how many objects it has')
    got = list(ix)
    ctx.check(len(got) == n, 'every object is listed once')
    for i in range(n): ctx.check(got[i] == objs[i][0], 'the objects are listed in order')
    pairs = list(ix.oid_offsets_and_idxs())
    ctx.check(len(pairs) == n, 'every offset is listed once')
    for i in range(n): ctx.check(and_(pairs[i][0] == objs[i][2], pairs[i][1] == i), 'the offsets are listed with their objects')
    firsts = {1: (0, 1, 127, 128, 255), 2: (0, 127, 128, 255), 3: (0, 254, 255), 4: (6, 7)}[n]
    for k in range(n_find):
        want = bytes([firsts[ctx.choose('wanted%d_first' % k, len(firsts))]]) + ctx.bytes('want%d' % k, 19)
        at = ix.find_offset(want)
        there = or_(*[o[0] == want for o in objs])
        if there:
            ctx.reach('found')
            ctx.check(at is not None, 'an object in the pack is found')
            for o in objs: ctx.check(implies(o[0] == want, at == o[2]), 'an object is found at its offset')
        else:
            ctx.reach('not found')
            ctx.check(at is None, 'an object that is not in the pack is not found')
        src, off = (ctx.flag('want_source%d' % k), ctx.flag('want_offset%d' % k)) if n < 3 else (True, True)
        r = ix.exists(want, want_source=src, want_offset=off)
        ctx.check(bool(r) == bool(there), 'an object exists exactly when it is in the pack')
        if r:
            if src: ctx.check(r.pack == name, 'the pack is named')
            if off: ctx.check(r.offset == at, 'the offset is given')
    ctx.check(not ix.exists(None), 'no object is not in any pack')

def reading(ctx, n, version):
    objs = []
    for i, oid in enumerate(ids(ctx, n)):
        off = ctx.int('offset%d' % i, 0, (1 << 63) - 1 if version == 2 else (1 << 32) - 1)
        objs.append((oid, ctx.int('crc%d' % i, 0, (1 << 32) - 1) if version == 2 else 0, off))
    data = (spec_v2 if version == 2 else spec_v1)(ctx, objs) + b't' * 40
    if version == 2:
        if or_(*[o[2] >= 2 ** 31 for o in objs]): ctx.reach('large offset')
    ix, name = open_index(ctx, data)
    try:
        ctx.check(isinstance(ix, git.PackIdxV2 if version == 2 else git.PackIdxV1), 'the version is recognized')
        lookups(ctx, ix, name, objs, 1)
    finally: ix.close()
    ctx.check(ix.closed, 'the index is closed')

def header(ctx):
    """what is no index is refused"""
    n = (0, 3, 8, 12)[ctx.choose('n', 4)]
    head = ctx.bytes('head', n)
    good = False
    if n >= 8:
        good = or_(head[:4] < b'\xfftOc', head[:8] == b'\xfftOc\0\0\0\2')
        if good: ctx.reach('recognized')
    made = []
    patch(git, 'open', lambda name, mode: F(head))
    def opened(v):
        def make(name, f):
            made.append((v, name, f))
            return 'idx'
        return make
    patch(git, 'PackIdxV1', opened(1))
    patch(git, 'PackIdxV2', opened(2))
    try: r = git.open_idx(b'/p/x.idx')
    except git.GitError:
        ctx.reach('refused')
        ctx.check(not good, 'an index is not refused')
        ctx.check(not made, 'a refused index is not opened')
        return
    ctx.check(good, 'what is no supported index is refused')
    ctx.check(and_(len(made) == 1, r == 'idx', made[0][1] == b'/p/x.idx'), 'the index is opened')
    ctx.check((made[0][0] == 2) == (head[:4] == b'\xfftOc'), 'the version is recognized')
    ctx.check(not made[0][2].closed, 'the index stays open')

class Disk:
    def __init__(self): self.data, self.synced = None, None

class W:
    """the index file being written"""
    def __init__(self, disk, mode):
        self.disk, self.append = disk, mode.startswith('a')
        if mode.startswith('w'): disk.data = b''
        self.pos = 0
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def fileno(self): return 5
    def flush(self): pass
    def truncate(self, n):
        d = self.disk.data
        self.disk.data = d[:n] if len(d) >= n else d + b'\0' * (n - len(d))
    def write(self, b):
        assert self.append
        self.disk.data = self.disk.data + b
        self.pos = len(self.disk.data)
        return len(b)
    def seek(self, n): self.pos = n
    def read(self, n=-1):
        out = self.disk.data[self.pos:] if n is None or n < 0 else self.disk.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out

class WMap:
    def __init__(self, disk): self.disk, self.size, self.flushed = disk, len(disk.data), 0
    def flush(self): self.flushed += 1
    def close(self): pass

class FakeSha:
    def __init__(self): self.data = b''
    def update(self, b): self.data = self.data + b
    def digest(self):
        FakeSha.last = self.data
        return b'C' * 20

def writing(ctx, n):
    oids = ids(ctx, n)
    objs = [(oid, ctx.int('crc%d' % i, 0, (1 << 32) - 1), ctx.int('offset%d' % i, 0, (1 << 63) - 1)) for i, oid in enumerate(oids)]
    w = git.PackIdxV2Writer()
    left = list(range(n))
    for k in range(n): w.add(*objs[left.pop(ctx.choose('order%d' % k, n - k))])
    packsum = ctx.bytes('packsum', 20)
    want = spec_v2(ctx, objs)
    if not ctx.symbolic:
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'pack-x.idx')
            w.write(p.encode('ascii'), packsum)
            with open(p, 'rb') as f: data = f.read()
        import hashlib
        ctx.check(data[-20:] == hashlib.sha1(data[:-20]).digest(), 'the checksum is of everything before it')
        data = data[:-20]
    else:
        disk = Disk()
        maps, syncs = [], []
        patch(git, 'open', lambda name, mode: W(disk, mode))
        def mapper(f, close=True):
            m = WMap(disk)
            maps.append(m)
            return m
        patch(git, 'mmap_readwrite', mapper)
        patch(git, 'fsync', lambda fd: syncs.append(disk.data))
        patch(git, 'Sha1', FakeSha)
        def write_idx(name, m, idx, total):
            ctx.check(total == n, 'the number of objects is given')
            got = []
            for b, part in enumerate(idx):
                for o in part: ctx.check(o[0][0] == b, 'each object is in its part')
                got.extend(part)
            ctx.check(len(got) == n, 'all the objects are given')
            for o in objs: ctx.check(sum(1 for g in got if g[0] is o[0] and g[1] is o[1] and g[2] is o[2]) == 1, 'each object is given once')
            ctx.check(m.size == len(want), 'the index has room for exactly its tables')
            m.disk.data = want
            return total
        patch(git._helpers, 'write_idx', write_idx)
        w.write(b'/p/pack-x.idx', packsum)
        data = disk.data
        ctx.check(data[len(data) - 20:] == b'C' * 20, 'the checksum comes last')
        ctx.check(FakeSha.last == data[:len(data) - 20], 'the checksum is of everything before it')
        ctx.check(syncs and syncs[-1] == data, 'the index is flushed to disk')
        ctx.check(maps[0].flushed > 0, 'the map is flushed')
        data = data[:len(data) - 20]
    ctx.check(data == want + packsum, 'the index has exactly the objects with their checksums and offsets')
    ctx.reach('written')

def cases(tier):
    out = []
    deep = tier != 'quick'
    for v in 1, 2:
        for n in (1, 2, 3) + ((4,) if deep else ()):
            out.append(Case('reading v%d %d' % (v, n), reading, ('found', 'not found') + (('large offset',) if v == 2 else ()), n=n, version=v,
                            weight=n * n, budget=600 if not deep else 3000,
                            bounds='%d objects in a version %d index: arbitrary offsets and ids (first byte one of %s)' % (n, v, FIRST[n])))
    out.append(Case('header', header, ('recognized', 'refused'), bounds='any beginning of a file of 0, 3, 8 or 12 bytes'))
    for n in (1, 2, 3) + ((4,) if deep else ()):
        out.append(Case('writing %d' % n, writing, ('written',), n=n, weight=n, bounds='%d objects in any order, arbitrary ids, checksums and offsets' % n))
    return out
