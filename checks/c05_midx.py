META = {
 'level': 'model_checking', 'cbmc': 'cbmc_c05',
 'assumptions': [
  'merged indexes list up to five (six) ids; the first bytes of ids are taken from a few representative values in the Python checks, and the ids '
  'differ in their first and last bytes in the check of the merge itself; tables of 1 to 256 entries',
  'the merge in C is decided with CBMC, and replaced by what it was shown to write in the Python checks',
  'an id that is in several indexes may be listed once for each',
 ],
}
import os, struct, tempfile, shutil
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies, ite
from bup import git, midx
from bup.cmd import midx as cmd
from c04_packidx import SymMap, F, Struct_, spec_v2, install

NAMES = (b'pack-a.idx', b'pack-b.idx', b'pack-c.idx')

def prefix(oid, bits):
    v = struct.unpack('!I', oid[:4])[0]
    return v >> (32 - bits)

def spec_midx(bits, ids, which, names):
    """the index of ids in order, from which of the names each is"""
    out = b'MIDX' + struct.pack('!II', 4, bits)
    for p in range(1 << bits):
        n = sum(1 for i in ids if (prefix(i, bits) if bits else 0) <= p)
        out = out + struct.pack('!I', n)
    for i in ids: out = out + i
    for w in which: out = out + struct.pack('!I', w)
    return out + b'\0'.join(names)

class World:
    """a directory of index files"""
    def __init__(self, ctx):
        self.ctx, self.files = ctx, {}
        self.dir = b'/p' if ctx.symbolic else tempfile.mkdtemp().encode('ascii')
        if ctx.symbolic:
            install(ctx, self.open, lambda f: SymMap(f.data))
            patch(midx, 'open', self.open)
            patch(midx, 'mmap_read', lambda f: SymMap(f.data))
            patch(midx, 'struct', Struct_)
            word = lambda b: struct.unpack('!I', b[:4])[0]
            patch(midx, '_helpers', SimpleNamespace(firstword=word))
            def bits(b, n): return word(b) >> (32 - n) if n else 0
            patch(midx, 'extract_bits', bits)
            patch(midx, 'os', SimpleNamespace(path=SimpleNamespace(exists=lambda p: p in self.files, join=os.path.join, dirname=os.path.dirname)))
            patch(midx, 'log', lambda *a: None)
    def open(self, name, mode='rb'): return F(self.files[name])
    def put(self, name, data):
        p = os.path.join(self.dir, name)
        self.files[p] = data
        if not self.ctx.symbolic:
            with open(p, 'wb') as f: f.write(data)
        return p
    def close(self):
        if not self.ctx.symbolic: shutil.rmtree(self.dir)

FIRST = {1: (0, 127, 128, 255), 2: (0, 127, 255), 3: (0, 128), 4: (7,), 5: (7,)}

def ids(ctx, n, tag='id', least=0, dups=False, firsts=None):
    out, firsts = [], firsts or FIRST[n]
    for i in range(n):
        least += ctx.choose('%s%d_first' % (tag, i), len(firsts) - least)
        out.append(bytes([firsts[least]]) + ctx.bytes('%s%d' % (tag, i), 19))
        if i: ctx.assume(out[i - 1] <= out[i] if dups else out[i - 1] < out[i])
    return out

def check_lookup(ctx, m, listed, want):
    """listed: (id, name) pairs"""
    src = len(listed) > 2 or ctx.flag('want_source')
    r = m.exists(want, want_source=src)
    there = or_(*[want == i for i, n in listed])
    if r:
        ctx.reach('found')
        ctx.check(there, 'what is found is in one of the indexes')
        if src: ctx.check(or_(*[and_(want == i, n == r.pack) for i, n in listed]), 'the index named has the object')
    else:
        ctx.reach('not found')
        ctx.check(not_(there), 'what is in an index is found')

def reading(ctx, n, bits, near=False):
    firsts = (64,) if near else None
    oids = ids(ctx, n, dups=True, firsts=firsts)
    which = [ctx.choose('which%d' % i, 2) for i in range(n)] if n < 3 else [2, 0, 1, 1, 0][:n]
    w = World(ctx)
    try:
        for x in NAMES: w.put(x, b'')
        p = w.put(b'midx-x.midx', spec_midx(bits, oids, which, NAMES))
        m = midx.open_midx(p)
        try:
            ctx.check(m is not None, 'the index is opened')
            ctx.check(len(m) == n, 'the number of ids is known')
            got = list(m)
            ctx.check(len(got) == n, 'every id is listed')
            for i in range(n): ctx.check(got[i] == oids[i], 'the ids are listed in order')
            ctx.check(list(m.idxnames) == list(NAMES), 'the indexes are named')
            others = (63, 64, 65) if near else {1: (0, 1, 127, 128, 255), 2: (0, 1, 127, 128, 255), 3: (0, 128), 4: (6, 7, 8), 5: (7,)}[n]
            want = bytes([others[ctx.choose('wanted_first', len(others))]]) + ctx.bytes('want', 19)
            check_lookup(ctx, m, [(oids[i], NAMES[which[i]]) for i in range(n)], want)
        finally: m.close()
    finally: w.close()

def opening(ctx):
    """an index of another version, without its indexes, or with another header is not used"""
    w = World(ctx)
    try:
        head = ctx.bytes('head', 4)
        ver = ctx.int('version', 0, (1 << 32) - 1)
        for i, x in enumerate(NAMES):
            if ctx.flag('there%d' % i): w.put(x, b'')
        data = spec_midx(1, [b'\1' * 20], [1], NAMES)
        p = w.put(b'm.midx', head + struct.pack('!I', ver) + data[8:])
        ignore = ctx.flag('ignore')
        ok = and_(head == b'MIDX', ver == 4)
        missing = [x for x in NAMES if os.path.join(w.dir, x) not in w.files]
        try: m = midx.open_midx(p, ignore_missing=ignore)
        except midx.MissingIdxs as ex:
            ctx.reach('missing')
            ctx.check(and_(ok, not ignore, list(ex.paths) == missing, len(missing) > 0), 'only missing indexes are reported, when asked for')
            return
        if m is None:
            ctx.reach('unusable')
            ctx.check(or_(not_(ok), and_(ignore, len(missing) > 0)), 'a usable index is opened')
            return
        m.close()
        ctx.reach('opened')
        ctx.check(and_(ok, not missing), 'only usable indexes are opened')
    finally: w.close()

def merging(ctx, shape):
    """merging packs' indexes and merged indexes; shape: for each, how many ids, and whether it is itself merged from two"""
    w = World(ctx)
    total = sum(k for k, m in shape)
    try:
        listed, files, least = [], [], 0
        for k, (n, merged) in enumerate(shape):
            oids = ids(ctx, n, 'id%d_' % k, dups=merged, firsts=(0, 255) if total < 4 else (9,))
            if merged:
                which = [ctx.choose('which%d_%d' % (k, i), 2) for i in range(n)]
                names = [b'pack-%d%d.idx' % (k, j) for j in range(2)]
                for x in names: w.put(x, b'')
                files.append(w.put(b'midx-%d.midx' % k, spec_midx(1, oids, which, names)))
                listed.extend((oids[i], names[which[i]]) for i in range(n))
            else:
                name = b'pack-%d.idx' % k
                files.append(w.put(name, spec_v2(ctx, [(o, 1, 12) for o in oids]) + b't' * 40))
                listed.extend((o, name) for o in oids)
        bits_seen = []
        out = os.path.join(w.dir, b'midx-out.midx')
        if ctx.symbolic:
            names_of = {f: x for f, x in w.files.items()}
            class Out:
                def __init__(self, path, mode='wb', **k): self.path, self.data, self.pos = path, b'', 0
                def __enter__(self): return self
                def __exit__(self, t, v, tb):
                    if t is None: w.files[self.path] = self.data
                def write(self, b):
                    assert self.pos == len(self.data)
                    self.data = self.data + b
                    self.pos = len(self.data)
                def tell(self): return self.pos
                def truncate(self, n):
                    self.data = self.data + b'\0' * (n - len(self.data))
                def flush(self): pass
                def fileno(self): return 4
                def seek(self, n, whence=0):
                    assert (n, whence) == (0, os.SEEK_END)
                    self.pos = len(self.data)
            class OutMap:
                def __init__(self, f): self.f = f
                def __enter__(self): return self
                def __exit__(self, *a): pass
            def merge_into(m, bits, n, inp):
                """what the check of the merge shows"""
                ctx.check(n == total, 'the number of ids is given')
                ctx.check(len(m.f.data) == 12 + 4 * (1 << bits) + 24 * total, 'there is room for the tables')
                ctx.check(bits_seen == [] and 0 <= bits <= 31, 'a reasonable table')
                bits_seen.append(bits)
                ents = []
                prev = None
                for data, length, sha_ofs, which_ofs, base in inp:
                    first = data[sha_ofs:sha_ofs + 20]
                    if prev is not None: ctx.check(prev >= first, 'the lists are given in descending order')
                    prev = first
                    for i in range(length):
                        o = data[sha_ofs + 20 * i:sha_ofs + 20 * i + 20]
                        nm = base + (struct.unpack('!I', data[which_ofs + 4 * i:which_ofs + 4 * i + 4])[0] if which_ofs else 0)
                        ents.append((o, nm))
                ents.sort(key=lambda e: e[0])
                head = m.f.data[:12]
                m.f.data = head + spec_midx(bits, [o for o, x in ents], [x for o, x in ents], [])[12:]
                ctx.check(len(m.f.data) == 12 + 4 * (1 << bits) + 24 * total, 'the tables fit')
                return n
            patch(cmd, 'atomically_replaced_file', Out)
            patch(cmd, 'mmap_readwrite', lambda f, close=True: OutMap(f))
            patch(cmd, 'merge_into', merge_into)
            patch(cmd, 'fsync', lambda fd: None)
            patch(cmd, 'unlink', lambda p: w.files.pop(p, None))
            patch(cmd, 'debug1', lambda *a: None)
            patch(cmd, 'log', lambda *a: None)
            patch(cmd, 'git', SimpleNamespace(open_idx=git.open_idx, repo_rel=lambda p: p))
        patch(cmd, '_first', None)
        auto = ctx.flag('auto')
        r = cmd._do_midx(w.dir, out, files, '', auto=auto, force=ctx.flag('force'))
        if r is None:
            ctx.reach('nothing to do')
            ctx.check(auto or len(files) < 2, 'there is something to do when asked explicitly')
            if ctx.symbolic: ctx.check(out not in w.files, 'nothing is written')
            for f in files: ctx.check(f in w.files, 'the inputs stay')
            return
        ctx.reach('merged')
        ctx.check(and_(r[0] == total, r[1] == out), 'the result is told')
        m = midx.open_midx(out)
        try:
            ctx.check(m is not None, 'the merged index is usable')
            ctx.check(len(m) == total, 'the merged index has all the ids')
            got = list(m)
            for i in range(1, total): ctx.check(got[i - 1] <= got[i], 'the ids are in order')
            pairs = [(got[i], m._get_idxname(i)) for i in range(total)]
            for o, n in listed:
                ctx.check(sum(ite(and_(g == o, x == n), 1, 0) for g, x in pairs) == sum(ite(and_(g == o, x == n), 1, 0) for g, x in listed),
                          'every id is listed with its index')
            if total < 3:
                firsts = (0, 1, 255)
                check_lookup(ctx, m, listed, bytes([firsts[ctx.choose('wanted_first', 3)]]) + ctx.bytes('want', 19))
        finally: m.close()
        ctx.check(set(m_names(out, w)) >= set(n for o, n in listed), 'all the indexes are named')
    finally: w.close()

def m_names(path, w):
    with midx.open_midx(path) as m: return [bytes(x) for x in m.idxnames]

class FakeMidx:
    def __init__(self, names, n): self.idxnames, self.n = names, n
    def __len__(self): return self.n
    def __enter__(self): return self
    def __exit__(self, *a): pass

def directory(ctx, nm, ni):
    """maintaining a directory never removes a merged index that is still needed"""
    names = [b'pack-%d.idx' % i for i in range(ni)]
    mids, sizes, mtimes = {}, {}, {}
    for k in range(nm):
        sub = [x for i, x in enumerate(names) if ctx.flag('in%d_%d' % (k, i))]
        if not sub: continue
        p = b'/p/midx-%d.midx' % k
        sizes[p] = (5, 50, 500)[ctx.choose('size%d' % k, 3)] if ni < 3 else (5, 50)[ctx.choose('size%d' % k, 2)]
        mtimes[p] = ctx.int('mtime%d' % k, 0, 1000, math=True) if ni < 3 else k
        mids[p] = sub
    for x in names: sizes[b'/p/' + x] = ctx.int('size_' + x.decode('ascii')[5], 1, 1000, math=True) if nm < 2 else 10 + int(x[5:6])
    removed, merged = [], []
    class I:
        def __init__(self, n): self.n = n
        def __len__(self): return sizes[self.n]
        def __enter__(self): return self
        def __exit__(self, *a): pass
    patch(cmd, 'glob', SimpleNamespace(glob=lambda p: list(mids) if p.endswith(b'/*.midx') else [b'/p/' + x for x in names]))
    class M(FakeMidx):
        pass
    patch(cmd, 'len', lambda x: x.n if isinstance(x, FakeMidx) else sizes[x.n] if isinstance(x, I) else len(x))
    patch(cmd, '_maybe_open_midx', lambda p, rm_broken=False: M(mids[p], sizes[p]))
    patch(cmd, 'git', SimpleNamespace(open_idx=I))
    patch(cmd, 'xstat', SimpleNamespace(stat=lambda p: SimpleNamespace(st_mtime_ns=mtimes[p])))
    patch(cmd, 'unlink', removed.append)
    patch(cmd, 'debug1', lambda *a: None)
    force, auto = [(False, True), (True, True), (True, False)][ctx.choose('mode', 3)]
    def do(outdir, outfilename, infilenames, prefixstr, auto=False, force=False):
        merged.append(list(infilenames))
        ctx.check(len(set(infilenames)) == len(infilenames), 'nothing is merged twice')
        ctx.check(len(infilenames) <= 5, 'no more than the allowed number of indexes is open')
        if len(infilenames) < 2: return None
        out = b'/p/midx-new%d.midx' % len(merged)
        mids[out] = sum((mids[f] if f.endswith(b'.midx') else [f[3:]] for f in infilenames), [])
        n = sum(sizes[f] for f in infilenames)
        sizes[out] = n
        return n, out
    patch(cmd, '_do_midx', do)
    cmd.do_midx_dir(b'/p', None, None, auto=auto, force=force, max_files=5)
    for r in removed:
        ctx.reach('removed')
        left = [x for m in mids if m not in removed and m[:11] != b'/p/midx-new' for x in mids[m]]
        ctx.check(all(x in left for x in mids[r]), 'a merged index is only removed when others cover all its indexes')
    if force:
        ctx.reach('forced')
        ctx.check(len(names) < 2 or any(set(mids[m]) >= set(names) for m in mids), 'forcing produces one index of everything')

def cases(tier):
    deep = tier != 'quick'
    out = []
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for bits in (0, 1, 2, 8) if n < 3 or deep else (0, 1):
            out.append(Case('reading %d, %d bits' % (n, bits), reading, ('found', 'not found'), n=n, bits=bits, weight=n * n, budget=1200 if deep else 500,
                            bounds='%d ids in a table of %d bits, any looked up' % (n, bits)))
    out.append(Case('reading neighbours', reading, ('found', 'not found'), n=3, bits=0, near=True, weight=8, budget=500, bounds='3 ids with the same first byte'))
    out.append(Case('opening', opening, ('missing', 'unusable', 'opened'), bounds='any header and version, any of three indexes missing'))
    shapes = {'one': [(1, False)], 'two': [(1, False), (1, False)], 'three': [(1, False)] * 3, 'merged and more': [(2, True), (1, False)],
              'bigger': [(2, False), (1, False)]}
    if deep: shapes.update({'merged twice': [(2, True), (2, True)], 'bigger twice': [(2, False), (2, False)], 'one merged': [(2, True)]})
    for k, v in shapes.items():
        out.append(Case('merging: ' + k, merging, ('merged',) + (('nothing to do',) if len(v) < 3 else ()), shape=v, weight=sum(a for a, b in v) ** 2, budget=1200 if deep else 500,
                        bounds='indexes of %s ids (and whether merged already), first bytes 0 or 255' % v))
    out.append(Case('directory of two', directory, ('removed', 'forced'), nm=2, ni=2, bounds='2 merged indexes of any of 2 indexes, any sizes and times'))
    out.append(Case('directory of three', directory, ('removed', 'forced'), nm=2 if not deep else 3, ni=3, weight=4, budget=1200 if deep else 500,
                    bounds='merged indexes of any of 3 indexes'))
    return out
