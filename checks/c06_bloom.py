META = {
 'level': 'model_checking', 'cbmc': 'cbmc_c06',
 'assumptions': [
  'the bit operations in C are decided with CBMC for filters of up to 2**29 bytes (2**31 with four hashes), and replaced by what they were shown to do in the Python checks',
  'in the Python checks, filters have up to 32 bytes and up to four arbitrary ids are added in one or two sessions',
 ],
}
import os, struct, tempfile, shutil, builtins
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies, ite
from bup import git, bloom
from bup.cmd import bloom as cmd
from c04_packidx import SymMap, spec_v2, install, F

class Data:
    """the content of a file"""
    def __init__(self, els=(), added=()): self.els, self.added = list(els), list(added)
    def end(self): return 16 + (1 << (self.els[8] << 8 | self.els[9])) if len(self.els) > 9 else 16

class File:
    def __init__(self, data, name): self.data, self.name, self.pos, self.closed = data, name, 0, False
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self.closed = True
    def fileno(self): return self
    def tell(self): return self.pos
    def seek(self, n): self.pos = n
    def truncate(self, n):
        e = self.data.els
        if n < self.data.end(): self.data.added = []
        e[n:] = []
        e.extend([0] * (n - len(e)))
    def write(self, b):
        d = self.data
        if isinstance(b, Map):
            assert self.pos == 0
            d.added = list(b.data.added)
            b = list(b.data.els)
        else:
            b = list(b)
            if b and self.pos < d.end() and self.pos + len(b) > 16: d.added = []
        e = d.els
        e.extend([0] * (self.pos - len(e)))
        e[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

class Map:
    def __init__(self, data, private=False): self.data, self.open = Data(data.els, data.added) if private else data, True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self.open = False
    def flush(self): pass
    def __getitem__(self, k): return bytes(self.data.els[k])
    def __setitem__(self, k, v):
        assert self.open
        if k.start < self.data.end() and k.stop > 16: self.data.added = []
        n = len(self.data.els[k])
        assert n == len(v)
        self.data.els[k] = list(v)

class FS:
    def __init__(self): self.files, self.n = {}, 0
    def open(self, path, mode='rb'):
        if mode == 'w+b': self.files[path] = Data()
        elif path not in self.files: raise FileNotFoundError(2, 'missing', path)
        return File(self.files[path], path)
    def mkstemp(self, dir=None, prefix=None):
        self.n += 1
        p = os.path.join(dir, prefix + b'%d' % self.n)
        self.files[p] = Data()
        return 7, p
    def rename(self, a, b): self.files[b] = self.files.pop(a)
    def unlink(self, p): self.files.pop(p, None)

def address(sha, i, bits, k):
    """where the bit of the i-th hash is"""
    if k == 5: raw, n = struct.unpack('!I', sha[4 * i:4 * i + 4])[0], 32
    else: raw, n = struct.unpack('!Q', b'\0\0\0' + sha[5 * i:5 * i + 5])[0], 40
    return (raw >> (n - bits) if bits else 0), (raw >> (n - 3 - bits)) & 7

def power(bit):
    out = 128
    for i in range(7): out = ite(bit == i, 1 << i, out)
    return out

def spec_add(m, ids, bits, k):
    if isinstance(m, Map):
        e = m.data.els
        for j in range(0, len(ids), 20):
            for i in range(k):
                at, bit = address(ids[j:j + 20], i, bits, k)
                mask = power(bit)
                for p in range(2 ** bits): e[16 + p] = ite(at == p, e[16 + p] | mask, e[16 + p])
    return len(ids) // 20

def spec_contains(m, sha, bits, k):
    e = m.data.els
    out = True
    for i in range(k):
        at, bit = address(sha, i, bits, k)
        mask = power(bit)
        out = and_(out, or_(*[and_(at == p, e[16 + p] & mask == mask) for p in range(2 ** bits)]))
    return (1, k) if out else (None, 1)

def set_add(m, ids, bits, k):
    """a filter without false positives"""
    for j in range(0, len(ids), 20): m.data.added.append((ids[j:j + 20], bits, k))
    return len(ids) // 20

def set_contains(m, sha, bits, k):
    return (1, k) if or_(*[sha == x for x, b, kk in m.data.added if b == bits and kk == k]) else (None, 1)

class World:
    def __init__(self, ctx, add=spec_add, contains=spec_contains):
        self.ctx = ctx
        self.dir = b'/p' if ctx.symbolic else tempfile.mkdtemp().encode('ascii')
        if ctx.symbolic:
            self.fs = fs = FS()
            patch(bloom, 'builtins', SimpleNamespace(open=fs.open))
            patch(bloom, 'mkstemp', fs.mkstemp)
            patch(bloom, 'unlink', fs.unlink)
            patch(bloom, 'os', SimpleNamespace(path=os.path, close=lambda fd: None, rename=fs.rename, fchmod=lambda fd, m: None, getcwdb=lambda: b'/',
                                               fstat=lambda f: SimpleNamespace(st_size=len(f.data.els))))
            patch(bloom, 'mmap_read', lambda f, close=True: Map(f.data))
            patch(bloom, 'mmap_readwrite', lambda f, close=True: Map(f.data))
            patch(bloom, 'mmap_readwrite_private', lambda f, close=True: Map(f.data, private=True))
            patch(bloom, 'bloom_add', add)
            patch(bloom, 'bloom_contains', contains)
            patch(bloom, 'log', lambda *a: None)
            self.idxs = {}
            install(ctx, lambda name, mode='rb': F(self.idxs[name]), lambda f: SymMap(f.data))
            patch(cmd, 'glob', SimpleNamespace(glob=lambda p: [x for x in self.idxs if x.startswith(p[:-5])]))
            patch(cmd, 'os', SimpleNamespace(path=os.path, rename=fs.rename))
            patch(cmd, 'log', lambda *a: None)
            patch(cmd, 'git', SimpleNamespace(open_idx=git.open_idx, repo_rel=lambda p: p))
    def path(self, n): return os.path.join(self.dir, n)
    def put_idx(self, name, ids):
        data = spec_v2(self.ctx, [(o, 0, 12) for o in ids]) + b't' * 40
        if self.ctx.symbolic: self.idxs[self.path(name)] = data
        else:
            with open(self.path(name), 'wb') as f: f.write(data)
    def exists(self, name):
        return self.path(name) in self.fs.files if self.ctx.symbolic else os.path.exists(self.path(name))
    def names(self):
        """the other files"""
        return [x for x in (self.fs.files if self.ctx.symbolic else [self.path(os.fsencode(n)) for n in os.listdir(self.dir)]) if not x.endswith(b'.idx')]
    def close(self):
        if not self.ctx.symbolic: shutil.rmtree(self.dir)

class Idx:
    """an open pack index"""
    def __init__(self, name, ids): self.name, self.shatable = name, b''.join(ids)

def session(ctx, w, mode, batches, expected, tag, k=None):
    b = bloom.BloomWriter(w.path(b'bup.bloom'), mode, expected, delaywrite=ctx.flag('delay' + tag) and None, k=k)
    with b:
        for i, ids in enumerate(batches): b.add_idx(Idx(b'/x/pack-%s%d.idx' % (tag.encode('ascii'), i), ids))
        for ids in batches:
            for o in ids: ctx.check(b.exists(o), 'an added id is possibly present')

def writing(ctx, sizes, expected, k, again=()):
    """what was added is present, also after reopening, and after adding more"""
    ids, w = [], World(ctx)
    def batch(n):
        out = []
        for i in range(n):
            out.append(ctx.bytes('id%d' % len(ids), 20))
            ids.append(out[-1])
        return out
    try:
        first = [batch(n) for n in sizes]
        names = [b'pack-a%d.idx' % i for i in range(len(sizes))]
        session(ctx, w, 'w+b', first, expected, 'a', k)
        def look(when):
            with bloom.BloomReader(w.path(b'bup.bloom')) as b:
                ctx.check(len(b) == len(ids), 'the number of entries is kept ' + when)
                ctx.check(list(b.idxnames) == names, 'the names of the indexes are kept ' + when)
                if k: ctx.check(b.k == k, 'the number of hashes is kept ' + when)
                for o in ids: ctx.check(b.exists(o), 'an added id is possibly present ' + when)
            ctx.check(w.names() == [w.path(b'bup.bloom')], 'there is only the filter ' + when)
        look('after closing')
        if again:
            more = [batch(n) for n in again]
            names.extend(b'pack-b%d.idx' % i for i in range(len(again)))
            session(ctx, w, 'wb', more, expected, 'b')
            look('after adding more')
        # an interrupted session leaves no partial filter
        class Stop(Exception): pass
        new = ctx.flag('new')
        try:
            with bloom.BloomWriter(w.path(b'other.bloom' if new else b'bup.bloom'), 'w+b' if new else 'wb', expected) as b:
                b.add(ctx.bytes('extra', 20))
                raise Stop()
        except Stop: pass
        ctx.check(w.names() == ([w.path(b'bup.bloom')] if new else []), 'an interrupted session leaves nothing behind')
        if new: look('after an interruption')
        ctx.reach('done')
    finally: w.close()

IDS = {}

def maintaining(ctx, n, sizes):
    """bup bloom: afterwards the filter covers every pack"""
    w = World(ctx, set_add, set_contains)
    try:
        ids = [[bytes([7 + i]) + ctx.bytes('id%d_%d' % (j, i), 19) for i in range(sizes[j])] for j in range(n)]
        names = [b'pack-%d.idx' % j for j in range(n)]
        before = [j for j in range(n) if ctx.flag('before%d' % j)]
        now = [j for j in range(n) if j in before or ctx.flag('new%d' % j)]
        gone = [j for j in before if ctx.flag('gone%d' % j)]
        now = [j for j in now if j not in gone]
        k0 = (4, 5)[ctx.choose('k_before', 2)]
        if before:
            with bloom.BloomWriter(w.path(b'bup.bloom'), 'w+b', 1 + ctx.choose('room', 2), k=k0) as b:
                for j in before: b.add_idx(Idx(names[j], ids[j]))
        for j in now: w.put_idx(names[j], ids[j])
        k = (None, 4, 5)[ctx.choose('k', 3)]
        force = ctx.flag('force')
        patch(cmd, '_first', None)
        cmd.do_bloom(w.dir, w.path(b'bup.bloom'), k, force)
        if not now and not before:
            ctx.check(w.names() == [], 'nothing is made of nothing')
            return
        ctx.reach('made')
        ctx.check(w.exists(b'bup.bloom'), 'there is a filter')
        ctx.check(w.names() == [w.path(b'bup.bloom')], 'no temporary file is left')
        with bloom.BloomReader(w.path(b'bup.bloom')) as b:
            for j in now:
                ctx.check(names[j] in b.idxnames, 'every index is covered')
                for o in ids[j]: ctx.check(b.exists(o), 'every object is possibly present')
            ctx.check(len(b) == sum(sizes[int(x[5:6])] for x in b.idxnames), 'the entries are those of the indexes named')
            for j in before:
                if names[j] in b.idxnames:
                    for o in ids[j]: ctx.check(b.exists(o), 'the objects of every index named are possibly present')
            if now and set(now) != set(before) and k and not gone:
                if b.k == k: ctx.reach('as asked')
    finally: w.close()

def header(ctx):
    """only a filter of the current version is used"""
    w = World(ctx)
    try:
        head = ctx.bytes('head', 8)
        n, k = ctx.int('n', 0, (1 << 32) - 1), ctx.int('k', 0, (1 << 16) - 1)
        data = head + struct.pack('!HHI', 1, k, n) + b'\0\0' + b'a\0b'
        p = w.path(b'x.bloom')
        if ctx.symbolic: w.fs.files[p] = Data(list(data))
        else:
            with open(p, 'wb') as f: f.write(data)
        good = head == b'BLOM\0\0\0\2'
        try: b = bloom.BloomReader(p)
        except bloom.BloomInvalid:
            ctx.reach('refused')
            ctx.check(not_(good), 'a filter is not refused')
            return
        ctx.reach('read')
        with b:
            ctx.check(good, 'what is no filter is refused')
            ctx.check(and_(b.k == k, len(b.idxnames) == 2, b.idxnames[0] == b'a', b.idxnames[1] == b'b', b.entries == n, b.bits == 1), 'the header is read')
    finally: w.close()

def cases(tier):
    deep = tier != 'quick'
    out = [Case('header', header, ('refused', 'read'), bounds='any beginning of a filter')]
    for k in 4, 5:
        for sizes, expected, again in (((1,), 1, (1,)), ((2,), 1, ()), ((1, 1), 1, ())) + ((((3,), 8, (1,)),) if deep else ()):
            out.append(Case('writing %s then %s, k=%d, %d expected' % (sizes, again, k, expected), writing, ('done',), sizes=sizes, expected=expected, k=k, again=again,
                            weight=sum(sizes) * expected, budget=800 if not deep else 3000,
                            bounds='%s ids, then %s more, in a filter for %d' % (sizes, again, expected)))
    for n, sizes in ((1, (1,)), (2, (1, 2))) + (((3, (1, 2, 1)),) if deep else ()):
        out.append(Case('maintaining %d' % n, maintaining, ('made',), n=n, sizes=sizes, weight=20, budget=800 if not deep else 3000,
                        bounds='any of %d packs of %s objects known, added or removed; any options' % (n, sizes)))
    return out
