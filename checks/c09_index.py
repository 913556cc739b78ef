META = {
 'level': 'model_checking',
 'assumptions': [
  'the index file, its mapping and its atomic replacement are an in-memory byte store (C21 decides replacement)',
  'timestamps split into seconds and nanoseconds and back exactly (decided by C29)',
  'entry sets of the listed shapes (up to 6 entries, 3 levels) with symbolic names of 1 to 2 bytes, in the '
  'descending order the writer demands; every stat field over its whole width',
  'metadata offsets are opaque numbers; path resolution of requested prefixes is the identity',
 ],
}
import stat
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies, ite
from bup import index, helpers
from bup.index import IX_EXISTS, IX_HASHVALID, EMPTY_SHA

class File:
    """a file (and its mapping) kept as a byte array"""
    def __init__(self): self.b = bytearray()
    def write(self, d): self.b += d
    def tell(self): return len(self.b)
    def flush(self): pass
    def fileno(self): return 3
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass

class Handle(File):
    def __init__(self, f): self.f, self.pos = f, 0
    def read(self, n):
        r = bytes(self.f.b[self.pos:self.pos + n]); self.pos += n
        return r
    def fileno(self): return self.f

class Map:
    def __init__(self, f): self.f = f
    def __len__(self): return len(self.f.b)
    def __getitem__(self, s): return bytes(self.f.b[s])
    def __setitem__(self, s, v):
        assert s.stop - s.start == len(v)
        self.f.b[s] = v
    def find(self, sub, start): return bytes(self.f.b).find(sub, start)
    def flush(self): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass

class FS:
    def __init__(self): self.files = {}

class Store:
    """metadata store: the offset of empty metadata"""
    def store(self, m): return 77

class Times:
    """xstat with exact conversions, remembering the pairs that make up each time"""
    def __init__(self): self.known = []
    def make(self, s, ns):
        t = s * 10 ** 9 + ns
        self.known.append((t, s, ns))
        return t
    def nsecs_to_timespec(self, t):
        for k, s, ns in self.known:
            if k is t: return s, ns
        return t // 10 ** 9, t % 10 ** 9
    def timespec_to_nsecs(self, p):
        s, ns = p
        return self.make(s, ns)

def env(ctx):
    fs = FS()
    class Atomic:
        n = 0
        def __init__(self, path, mode='wb', buffering=-1):
            self.path, self.cancelled = path, False
            Atomic.n += 1
            self.tmp_path = path + b'-%d' % Atomic.n
        def __enter__(self):
            self.f = fs.files[self.tmp_path] = File()
            return self.f
        def __exit__(self, t, v, tb):
            f = fs.files.pop(self.tmp_path)
            if not self.cancelled and t is None: fs.files[self.path] = f
            return False
        def cancel(self): self.cancelled = True
    def opener(path, mode='r'):
        if path not in fs.files: raise FileNotFoundError(path)
        return Handle(fs.files[path])
    times = Times()
    patch(index, 'atomically_replaced_file', Atomic)
    patch(index, 'open', opener)
    patch(index, 'mmap_readwrite', lambda h: Map(h.f))
    patch(index, 'os', SimpleNamespace(fstat=lambda f: SimpleNamespace(st_size=len(f.b)), lstat=None))
    patch(index, 'fsync', lambda fd: None)
    patch(index, 'resolve_parent', lambda p: p)
    patch(index, 'xstat', times)
    patch(index, 'qprogress', lambda *a: None)
    patch(index, 'progress', lambda *a: None)
    return fs, times

FIELDS = ('dev', 'ino', 'nlink', 'ctime', 'mtime', 'atime', 'size', 'mode', 'gitmode', 'sha', 'flags', 'meta_ofs')

def u(ctx, n, bits): return ctx.int(n, 0, (1 << bits) - 1)

def sym_entry(ctx, times, tag, name, full):
    base = index.pathsplit(name)[-1]
    isdir = name.endswith(b'/')
    def time(n):
        if not full: return times.make(ctx.int('%s_s%s' % (n, tag), 1, 255), 0)
        return times.make(ctx.int('%s_s%s' % (n, tag), -(1 << 63), (1 << 63) - 1), ctx.int('%s_ns%s' % (n, tag), 0, 10 ** 9 - 1))
    if full:
        v = dict(dev=u(ctx, 'dev' + tag, 64), ino=u(ctx, 'ino' + tag, 64), nlink=u(ctx, 'nlink' + tag, 64),
                 size=u(ctx, 'size' + tag, 64), mode=u(ctx, 'mode' + tag, 32), gitmode=u(ctx, 'gitmode' + tag, 32),
                 sha=ctx.bytes('sha' + tag, 20), flags=u(ctx, 'flags' + tag, 16), meta_ofs=u(ctx, 'meta' + tag, 64))
    else:
        v = dict(dev=1, ino=u(ctx, 'ino' + tag, 16), nlink=1, size=5, mode=(0o40755 if isdir else 0o100644),
                 gitmode=(0o40000 if isdir else 0o100644), sha=bytes([len(tag)]) * 20,
                 flags=(IX_EXISTS, IX_EXISTS | IX_HASHVALID)[ctx.choose('flags' + tag, 2)], meta_ofs=9)
    v.update(ctime=time('c'), mtime=time('m'), atime=time('a'))
    e = index.NewEntry(base, name, None, v['dev'], v['ino'], v['nlink'], v['ctime'], v['mtime'], v['atime'],
                       v['size'], v['mode'], v['gitmode'], v['sha'], v['flags'], v['meta_ofs'], 0, 0)
    return e, v

# shapes: directories by path of indexes into the symbolic components; a trailing 'd' marks a directory
# written in the order given, which must come out descending
SHAPES = {
 'file': [('f', 0)],
 'two files': [('f', 0), ('f', 1)],
 'three files': [('f', 0), ('f', 1), ('f', 2)],
 'dir and file': [('d', 0), ('f', 1)],
 'file and dir': [('f', 0), ('d', 1)],
 'dir contents': [('f', 0, 1), ('d', 0)],
 'dir contents alone': [('f', 0, 1)],
 'two in a dir': [('f', 0, 1), ('f', 0, 2), ('d', 0)],
 'dirs': [('f', 0, 1), ('d', 0), ('f', 2, 1), ('d', 2)],
 'dirs alone': [('f', 0, 1), ('f', 2, 3)],
 'deep': [('f', 0, 1, 2), ('d', 0, 1), ('f', 0, 3), ('d', 0), ('f', 4)],
 'deep alone': [('f', 0, 1, 2), ('f', 0, 3), ('f', 4)],
 'deep mixed': [('f', 0, 1, 2), ('f', 0, 1, 3), ('d', 0, 4), ('d', 0)],
 'deep dirs': [('d', 0, 1, 2), ('d', 0, 1), ('d', 0), ('d', 3)],
}

def build(ctx, shape, lens, prefix=''):
    """The paths of SHAPES[shape] with symbolic component names."""
    comps = {}
    def comp(i):
        if i not in comps:
            comps[i] = ctx.bytes('%sname%d' % (prefix, i), lens[i % len(lens)], exclude=b'\0/')
        return comps[i]
    paths = []
    for kind, *ix in SHAPES[shape]:
        p = b'/' + b'/'.join([comp(i) for i in ix]) + (b'/' if kind == 'd' else b'')
        if paths: ctx.assume(p < paths[-1])
        paths.append(p)
    return paths

def parents(path):
    parts = path.rstrip(b'/').split(b'/')
    out, p = [], b'/'
    for c in parts[1:-1]:
        p = p + c + b'/'
        out.append(p)
    return [b'/'] + out

def expected(ctx, paths):
    """Every path and, where not given, its parents; in descending order (paths are)."""
    out = []
    for p in paths:
        if not any([bool(p == q) for q in out]): out.append(p)
    for p in paths:
        for d in parents(p):
            if not any([bool(d == q) for q in out]):
                out.append(d)
    # insertion sort, forking on comparisons
    res = []
    for p in out:
        i = 0
        while i < len(res) and res[i] > p: i += 1
        res.insert(i, p)
    return res

def write(fs, path, entries, tmax=None):
    with index.Writer(path, Store(), tmax) as w:
        for e in entries: w.add_ixentry(e)
        w.close()

def check_listing(ctx, got, want, what):
    ctx.check(len(got) == len(want), what + ': number of entries')
    for g, w in zip(got, want):
        ctx.check(g.name == w, what + ': names in descending order, contents before their directory')

def run_roundtrip(ctx, shape, lens, full):
    fs, times = env(ctx)
    paths = build(ctx, shape, lens)
    ents = [sym_entry(ctx, times, str(i), p, full == i) for i, p in enumerate(paths)]
    write(fs, b'ix', [e for e, v in ents])
    want = expected(ctx, paths)
    with index.Reader(b'ix') as r:
        got = list(r)
        check_listing(ctx, got, want, 'iteration')
        ctx.check(len(r) == len(want), 'entry count')
        for g in got:
            for p, (e, v) in zip(paths, ents):
                if g.name == p:
                    for f in FIELDS:
                        ctx.check(getattr(g, f) == v[f], 'field %s unchanged' % f)
                    ctx.check(g.basename == index.pathsplit(p)[-1], 'base name')
                    ctx.reach('given')
                    break
            else:
                ctx.check(and_(g.is_fake(), g.exists(), not_(g.is_valid()), g.meta_ofs == 77), 'placeholder for an unlisted directory')
                ctx.reach('placeholder')
        fwd = list(r.forward_iter())
        ctx.check(len(fwd) == len(want), 'forward iteration yields each entry once')
        ctx.check(fwd[-1].basename == b'/', 'the root comes last')
        for g in got:
            kids = [h for h in got if h is not g and parents(h.name)[-1] == g.name]
            ctx.check(g.children_n == len(kids), 'children count')

def run_lookup(ctx, shape, lens, plen, isdir):
    fs, times = env(ctx)
    paths = build(ctx, shape, lens)
    ents = [sym_entry(ctx, times, str(i), p, False) for i, p in enumerate(paths)]
    write(fs, b'ix', [e for e, v in ents])
    want = expected(ctx, paths)
    parts = [ctx.bytes('p%d' % i, n, exclude=b'\0/') for i, n in enumerate(plen)]
    name = b'/' + b'/'.join(parts) + (b'/' if isdir and parts else b'')
    under = name if name.endswith(b'/') else name + b'/'
    with index.Reader(b'ix') as r:
        got = list(r.iter(name=name))
        exp = [p for p in want if p == name or p.startswith(under)]
        check_listing(ctx, got, exp, 'lookup')
        if exp: ctx.reach('found')
        else: ctx.reach('nothing there')
        f = r.find(name)
        if any([bool(p == name) for p in want]):
            ctx.check(f is not None and f.name == name, 'find gives the entry')
        else:
            ctx.check(f is None, 'find gives nothing when the name is not there')

def run_filter(ctx, shape, lens, plens):
    fs, times = env(ctx)
    paths = build(ctx, shape, lens)
    ents = [sym_entry(ctx, times, str(i), p, False) for i, p in enumerate(paths)]
    write(fs, b'ix', [e for e, v in ents])
    want = expected(ctx, paths)
    for p in want:      # no name is both a file and a directory on the filesystem
        for q in want:
            if p.endswith(b'/') and len(q) == len(p) - 1: ctx.assume(q != p[:-1])
    names = [b'/' + b'/'.join([ctx.bytes('p%d_%d' % (j, i), n, exclude=b'\0/') for i, n in enumerate(pl)])
             for j, pl in enumerate(plens)]
    # the filesystem agrees with the index about what is a directory
    full = []
    for n in names:
        hit = None
        for p in want:
            if p == n or (p.endswith(b'/') and p[:-1] == n): hit = p
        ctx.assume(hit is not None)
        full.append(hit)
    def lstat(p):
        for n, h in zip(names, full):
            if p == n: return SimpleNamespace(st_mode=0o40755 if h.endswith(b'/') else 0o100644)
        raise OSError(2, 'no such file')
    patch(index, 'os', SimpleNamespace(fstat=lambda f: SimpleNamespace(st_size=len(f.b)), lstat=lstat))
    under = lambda p, f: or_(p == f, p.startswith(f if f.endswith(b'/') else f + b'/'))
    exp = [p for p in want if or_(*[under(p, f) for f in full])]
    with index.Reader(b'ix') as r:
        got = list(r.filter(names))
        ctx.check(len(got) == len(exp), 'exactly the entries under the prefixes')
        for (n, g), w in zip(got, exp):
            ctx.check(and_(g.name == w, n == w), 'entries under the prefixes, in order')
        ctx.reach('overlap' if len(exp) < sum([len([p for p in want if under(p, f)]) for f in full])
                  else 'apart')

def run_update(ctx, shape, lens, target, op):
    """Changing one entry in place changes that entry, and only un-validates its parents."""
    fs, times = env(ctx)
    paths = build(ctx, shape, lens)
    ents = [sym_entry(ctx, times, str(i), p, i == target) for i, p in enumerate(paths)]
    write(fs, b'ix', [e for e, v in ents])
    name, v = paths[target], ents[target][1]
    with index.Reader(b'ix') as r:
        before = list(r)
        hit = [e for e in r if e.name == name][0]
        if op == 'delete':
            hit.set_deleted()
            new = dict(v, flags=ite((v['flags'] & IX_EXISTS) != 0, v['flags'] & ~(IX_EXISTS | IX_HASHVALID), v['flags']))
        elif op == 'invalidate':
            hit.invalidate(); new = dict(v, flags=v['flags'] & ~IX_HASHVALID)
        elif op == 'validate':
            gm, sha = u(ctx, 'newgm', 32), ctx.bytes('newsha', 20)
            ctx.assume(gm != 0)
            hit.validate(gm, sha); new = dict(v, gitmode=gm, sha=sha, flags=v['flags'] | IX_HASHVALID | IX_EXISTS)
        elif op == 'stat':
            st = SimpleNamespace(st_dev=u(ctx, 'ndev', 64), st_ino=u(ctx, 'nino', 64), st_nlink=u(ctx, 'nnlink', 64),
                                 st_ctime_ns=times.make(u(ctx, 'nc', 63), 5), st_mtime_ns=times.make(u(ctx, 'nm', 63), 6),
                                 st_atime_ns=times.make(u(ctx, 'na', 63), 7), st_size=u(ctx, 'nsz', 64), st_mode=u(ctx, 'nmode', 32))
            mo = u(ctx, 'nmo', 64)
            hit.update_from_stat(st, mo); hit.invalidate()
            new = dict(v, dev=st.st_dev, ino=st.st_ino, nlink=st.st_nlink, ctime=st.st_ctime_ns, mtime=st.st_mtime_ns,
                       atime=st.st_atime_ns, size=st.st_size, mode=st.st_mode, meta_ofs=mo,
                       flags=(v['flags'] | IX_EXISTS) & ~IX_HASHVALID)
        hit.repack()
    valid = (new['flags'] & (IX_EXISTS | IX_HASHVALID)) == (IX_EXISTS | IX_HASHVALID)
    with index.Reader(b'ix') as r:
        after = list(r)
        ctx.check(len(after) == len(before), 'same entries')
        for b, a in zip(before, after):
            ctx.check(a.name == b.name, 'same names')
            if b.name == name:
                for f in FIELDS: ctx.check(getattr(a, f) == new[f], 'updated field %s' % f)
                continue
            for f in FIELDS:
                if f != 'flags': ctx.check(getattr(a, f) == getattr(b, f), 'others keep field %s' % f)
            if name.startswith(b.name) and b.name.endswith(b'/'):
                ctx.check(a.flags == ite(valid, b.flags, b.flags & ~IX_HASHVALID), 'a parent is no longer valid when its content is not')
                ctx.reach('parent')
            else:
                ctx.check(a.flags == b.flags, 'unrelated entries keep their flags')

def run_merge(ctx, a, b, lens):
    fs, times = env(ctx)
    pa, pb = build(ctx, a, lens, 'a'), build(ctx, b, lens, 'b')
    ea = [sym_entry(ctx, times, 'a%d' % i, p, False) for i, p in enumerate(pa)]
    eb = [sym_entry(ctx, times, 'b%d' % i, p, False) for i, p in enumerate(pb)]
    write(fs, b'old', [e for e, v in ea])
    write(fs, b'new', [e for e, v in eb])
    with index.Reader(b'old') as ro, index.Reader(b'new') as rn:
        old, new = list(ro), list(rn)
        with index.Writer(b'out', Store(), None) as w:
            for e in index.merge(ro, rn): w.add_ixentry(e)
            w.close()
    want = expected(ctx, pa + pb)
    with index.Reader(b'out') as r:
        got = list(r)
        check_listing(ctx, got, want, 'merged')
        for g in got:
            src = [e for e in old + new if e.name == g.name]
            if len(src) > 1: ctx.reach('in both')
            best = min((e.is_valid(), bool(e.is_fake())) for e in src)
            ok = []
            for e in src:
                if (e.is_valid(), bool(e.is_fake())) == best:
                    ok.append(and_(*[getattr(g, f) == getattr(e, f) for f in FIELDS]))
            ctx.check(or_(*ok), 'the entry to be saved wins, else the real one; its fields are unchanged')

def run_add(ctx, isdir, hashed, st):
    """Writer.add records the stat data of new paths."""
    fs, times = env(ctx)
    name = b'/' + ctx.bytes('n', 2, exclude=b'\0/') + (b'/' if isdir else b'')
    tmax = times.make(ctx.int('tmax', 1, 1 << 33), 0)
    T = lambda n: times.make(ctx.int(n, 0, 1 << 34), 1)
    mode = ctx.int('mode', 0, 0o7777) | (0o40000 if isdir else 0o100000)
    s = SimpleNamespace(st_dev=u(ctx, 'dev', 64), st_ino=u(ctx, 'ino', 64), st_nlink=u(ctx, 'nlink', 64), st_size=u(ctx, 'size', 64),
                        st_mode=mode, st_ctime_ns=T('c'), st_mtime_ns=T('m'), st_atime_ns=T('a')) if st else None
    mo = u(ctx, 'mo', 64)
    with index.Writer(b'ix', Store(), tmax) as w:
        w.add(name, s, mo, hashgen=(lambda n: (0o100644, b'h' * 20)) if hashed else None)
        w.close()
    with index.Reader(b'ix') as r:
        e = r.find(name)
        ctx.check(e is not None, 'the path is recorded')
        ctx.check(and_(e.exists(), e.is_valid() == bool(hashed)), 'flags')
        ctx.check(and_(e.sha == (b'h' * 20 if hashed else EMPTY_SHA), e.gitmode == (0o100644 if hashed else 0)), 'content id')
        if not st:
            ctx.check(and_(e.meta_ofs == 77, e.ctime == 0), 'empty metadata without a stat')
        else:
            clamp = lambda t: ite(t > tmax, tmax, t)
            ctx.check(and_(e.dev == s.st_dev, e.ino == s.st_ino, e.nlink == s.st_nlink, e.size == s.st_size, e.mode == mode,
                           e.meta_ofs == mo, e.atime == s.st_atime_ns), 'stat fields')
            ctx.check(and_(e.mtime == clamp(s.st_mtime_ns), e.ctime == clamp(s.st_ctime_ns)), 'times, no later than allowed')
        ctx.reach('added')

def run_empty(ctx):
    fs, times = env(ctx)
    with index.Reader(b'none') as r:
        ctx.check(list(r) == [] and not r.exists(), 'a missing index lists nothing')
        ctx.check(r.find(b'/x') is None, 'nothing found')
    write(fs, b'ix', [])
    with index.Reader(b'ix') as r:
        ctx.check(list(r) == [] and len(r) == 0, 'an empty index lists nothing')
    with index.Writer(b'ix2', Store(), None) as w:
        e = index.NewEntry(b'a', b'/a', None, 1, 1, 1, 1, 1, 1, 1, 1, 1, b's' * 20, IX_EXISTS, 1, 0, 0)
        w.add_ixentry(e)
        # left without close: an aborted update
    ctx.check(b'ix2' not in fs.files, 'an aborted index is not installed')
    with index.Writer(b'ix3', Store(), None) as w:
        w.add_ixentry(index.NewEntry(b'a', b'/a', None, 1, 1, 1, 1, 1, 1, 1, 1, 1, b's' * 20, IX_EXISTS, 1, 0, 0))
        second = b'/' + ctx.bytes('second', 1, exclude=b'\0/')
        try:
            w.add_ixentry(index.NewEntry(second[1:], second, None, 1, 1, 1, 1, 1, 1, 1, 1, 1, b's' * 20, IX_EXISTS, 1, 0, 0))
            ctx.check(second < b'/a', 'entries out of order are refused')
            ctx.reach('in order')
        except (index.Error, TypeError):
            ctx.check(second >= b'/a', 'entries in order are accepted')
            ctx.reach('out of order')

def cases(tier):
    r = []
    T = tier == 'thorough'
    rt = [('file', 0), ('two files', 1), ('three files', None), ('dir and file', 0), ('file and dir', 1), ('dir contents', 0),
          ('dir contents alone', 0), ('two in a dir', 1), ('dirs', None), ('dirs alone', 0), ('deep', 1), ('deep alone', None),
          ('deep mixed', 2), ('deep dirs', 1)]
    for shape, full in rt:
        placeholder = not all(s[0] == 'd' for s in SHAPES[shape])
        for lens in ([(1,), (1, 2)] if not T else [(1,), (1, 2), (2, 1), (2, 2, 1)]):
            r.append(Case('roundtrip %s %s' % (shape, lens), run_roundtrip, ('given', 'placeholder'),
                          bounds='shape %r, names of %s bytes' % (shape, list(lens)), shape=shape, lens=lens, full=full))
    look = [('dir and file', (1,), (1,), False), ('dir contents', (1,), (1,), False), ('dir contents', (1, 2), (1,), True),
            ('two in a dir', (1,), (1, 1), False), ('dirs', (1,), (1,), True), ('file and dir', (1, 2), (2,), False), ('file and dir', (1, 2), (1,), False),
            ('deep', (1,), (1, 1), True), ('file', (1,), (), True)]
    if T: look += [('deep', (1,), (1,), False), ('deep', (1,), (1, 1, 1), False), ('deep mixed', (1, 2), (1, 1), False), ('deep mixed', (1, 2), (1, 2), True),
                   ('dirs', (1, 2), (2,), False), ('three files', (1, 2), (1,), False), ('deep alone', (1, 2), (1, 2), True)]
    for shape, lens, plen, isdir in look:
        r.append(Case('lookup %s %s %s%s' % (shape, lens, plen, '/' if isdir else ''), run_lookup,
                      (('found', 'nothing there') if plen != (2,) or shape != 'dirs' else ('nothing there',)) if plen else ('found',),
                      bounds='shape %r names %s, looked-up path of components of %s bytes' % (shape, list(lens), list(plen)),
                      shape=shape, lens=lens, plen=plen, isdir=isdir))
    flt = [('dir and file', (1,), [(1,), (1,)]), ('dirs', (1,), [(1,), (1, 1)]), ('file and dir', (1, 2), [(1,), (2,)])]
    if T: flt += [('deep', (1,), [(1, 1), (1,)]), ('deep', (1,), [(1, 1, 1), (1, 1)]), ('dirs', (1,), [(1,), (1,), (1, 1)])]
    for shape, lens, plens in flt:
        r.append(Case('filter %s %s %s' % (shape, lens, plens), run_filter, ('apart',) if len(plens) < 3 else ('overlap',),
                      bounds='shape %r, prefixes of components of %s bytes' % (shape, plens), shape=shape, lens=lens, plens=plens))
    up = [('dir contents', 0), ('dirs', 2), ('deep', 0)] + ([('deep', 1), ('deep mixed', 1), ('deep dirs', 2)] if T else [])
    for shape, target in up:
        for op in ('delete', 'invalidate', 'validate', 'stat'):
            r.append(Case('%s %s' % (op, shape), run_update, ('parent',), bounds='shape %r' % shape, shape=shape, lens=(1,),
                          target=target, op=op))
    mg = [('file', 'file'), ('dir contents', 'dir contents alone'), ('dir and file', 'file'), ('two in a dir', 'dir contents alone')]
    if T: mg += [('two in a dir', 'two in a dir'), ('dirs', 'dir contents'), ('deep', 'dir contents alone'), ('deep alone', 'dirs alone'), ('three files', 'two files')]
    for a, b in mg:
        r.append(Case('merge %s | %s' % (a, b), run_merge, ('in both',), bounds='shapes %r and %r' % (a, b), a=a, b=b, lens=(1,)))
    for isdir, hashed, st in ((False, False, True), (False, True, True), (True, False, True), (True, False, False)):
        r.append(Case('add %s%s%s' % ('dir' if isdir else 'file', ' hashed' if hashed else '', '' if st else ' no stat'), run_add,
                      ('added',), bounds='all stat values', isdir=isdir, hashed=hashed, st=st))
    r.append(Case('empty and aborted', run_empty, ('in order', 'out of order'), bounds='one symbolic name'))
    return r
