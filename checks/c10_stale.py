META = {
 'level': 'model_checking',
 'assumptions': [
  'a change of mode, owner or other metadata advances the change time, as the kernel guarantees; those are therefore '
  'not compared separately',
  'the index file, its mapping and its atomic replacement are an in-memory byte store; the hard link and metadata stores '
  'record what they are told (C24, C08); the directory walk (C30) yields the current paths in descending order, each once',
  'the clock reads a whole number of seconds; up to two recorded and two current paths below the indexed directory plus one outside it',
  'the attributes of a changed path can be read (otherwise bup index reports an error for it)',
 ],
}
import stat
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies, ite
from bup import index, helpers
from bup.cmd import index as cmd_index
from bup.index import IX_EXISTS, IX_HASHVALID, EMPTY_SHA

class File:
    """a file (and its mapping) kept as a byte array"""
    def __init__(self): self.b = bytearray()
    def write(self, d): self.b += d
    def tell(self): return len(self.b)
    def flush(self): pass
    def fileno(self): return 3
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass

class Handle(File):
    def __init__(self, f): self.f, self.pos = f, 0
    def read(self, n):
        r = bytes(self.f.b[self.pos:self.pos + n]); self.pos += n
        return r
    def fileno(self): return self.f

class Map:
    def __init__(self, f): self.f = f
    def __len__(self): return len(self.f.b)
    def __getitem__(self, s): return bytes(self.f.b[s])
    def __setitem__(self, s, v):
        assert s.stop - s.start == len(v)
        self.f.b[s] = v
    def find(self, sub, start): return bytes(self.f.b).find(sub, start)
    def flush(self): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass

class FS:
    def __init__(self): self.files = {}

class Store:
    """metadata store: the offset of empty metadata"""
    def store(self, m): return 77

class Times:
    """xstat with exact conversions, remembering the pairs that make up each time"""
    def __init__(self): self.known = []
    def make(self, s, ns):
        t = s * 10 ** 9 + ns
        self.known.append((t, s, ns))
        return t
    def nsecs_to_timespec(self, t):
        for k, s, ns in self.known:
            if k is t: return s, ns
        return t // 10 ** 9, t % 10 ** 9
    def timespec_to_nsecs(self, p):
        s, ns = p
        return self.make(s, ns)

def env(ctx):
    fs = FS()
    class Atomic:
        n = 0
        def __init__(self, path, mode='wb', buffering=-1):
            self.path, self.cancelled = path, False
            Atomic.n += 1
            self.tmp_path = path + b'-%d' % Atomic.n
        def __enter__(self):
            self.f = fs.files[self.tmp_path] = File()
            return self.f
        def __exit__(self, t, v, tb):
            f = fs.files.pop(self.tmp_path)
            if not self.cancelled and t is None: fs.files[self.path] = f
            return False
        def cancel(self): self.cancelled = True
    def opener(path, mode='r'):
        if path not in fs.files: raise FileNotFoundError(path)
        return Handle(fs.files[path])
    times = Times()
    patch(index, 'atomically_replaced_file', Atomic)
    patch(index, 'open', opener)
    patch(index, 'mmap_readwrite', lambda h: Map(h.f))
    patch(index, 'os', SimpleNamespace(fstat=lambda f: SimpleNamespace(st_size=len(f.b)), lstat=None))
    patch(index, 'fsync', lambda fd: None)
    patch(index, 'resolve_parent', lambda p: p)
    patch(index, 'xstat', times)
    patch(index, 'qprogress', lambda *a: None)
    patch(index, 'progress', lambda *a: None)
    return fs, times

FIELDS = ('dev', 'ino', 'nlink', 'ctime', 'mtime', 'atime', 'size', 'mode', 'gitmode', 'sha', 'flags', 'meta_ofs')
VALID = IX_EXISTS | IX_HASHVALID

def u(ctx, n, bits): return ctx.int(n, 0, (1 << bits) - 1)

def run_stale(ctx, check_device):
    """The decision itself, over the whole width of every field."""
    T = lambda n: ctx.int(n, -(1 << 93), 1 << 93, math=True)
    rec = dict(dev=u(ctx, 'dev', 64), ino=u(ctx, 'ino', 64), nlink=u(ctx, 'nlink', 64), ctime=T('ctime'), mtime=T('mtime'), atime=T('atime'),
               size=u(ctx, 'size', 64), mode=u(ctx, 'mode', 32), gitmode=u(ctx, 'gitmode', 32), sha=ctx.bytes('sha', 20), flags=u(ctx, 'flags', 16))
    e = index.NewEntry(b'x', b'/x', None, rec['dev'], rec['ino'], rec['nlink'], rec['ctime'], rec['mtime'], rec['atime'], rec['size'],
                       rec['mode'], rec['gitmode'], rec['sha'], rec['flags'], 0, 0, 0)
    st = SimpleNamespace(st_dev=u(ctx, 'sdev', 64), st_ino=u(ctx, 'sino', 64), st_nlink=u(ctx, 'snlink', 64), st_ctime_ns=T('sctime'),
                         st_mtime_ns=T('smtime'), st_atime_ns=T('satime'), st_size=u(ctx, 'ssize', 64), st_mode=u(ctx, 'smode', 32))
    same = and_(e.size == st.st_size, e.mtime == st.st_mtime_ns, e.ctime == st.st_ctime_ns, e.ino == st.st_ino, e.nlink == st.st_nlink,
                or_(not check_device, e.dev == st.st_dev))
    known = and_(e.sha != EMPTY_SHA, e.gitmode != 0, (e.flags & IX_EXISTS) != 0)
    stale = bool(e.stale(st, check_device=check_device))
    if stale:
        ctx.check(not_(and_(same, known)), 'an unchanged path that has been saved is not stale')
        ctx.reach('stale')
    else:
        ctx.check(and_(same, known), 'a path that changed or was never saved is stale')
        ctx.reach('fresh')

class Clock:
    """time.time()"""
    def __init__(self, t): self.t = t
    def __sub__(self, o):
        return 0.0 if isinstance(o, Clock) else self.t - o

class Links:
    def __init__(self, recs): self.recs = dict(recs)
    def del_path(self, p):
        for k in list(self.recs):
            if k == p: del self.recs[k]
    def add_path(self, p, dev, ino):
        for k in self.recs: assert not k == p or self.recs[k] == (dev, ino)
        self.del_path(p)
        self.recs[p] = (dev, ino)
    def prepare_save(self): self.prepared = dict(self.recs)
    def commit_save(self): self.saved = self.prepared
    def __enter__(self): return self
    def __exit__(self, *a): pass

class MetaStore:
    def __init__(self): self.n = 100; self.stored = {}
    def store(self, m):
        if m is index.empty_metadata: return 77
        self.n += 1
        self.stored[self.n] = m
        return self.n
    def __enter__(self): return self
    def __exit__(self, *a): pass

class Meta:
    """a path's metadata"""
    def __init__(self, path): self.path, self.frozen = path, True
    def thaw(self): self.frozen = False
    def freeze(self): self.frozen = True
    def __setattr__(self, k, v):
        if k not in ('path', 'frozen'): assert not self.frozen
        self.__dict__[k] = v

B = 4   # bits of the small fields
NS = 500

def recorded(ctx, times, i, name, isdir, states, simple):
    state = states[ctx.choose('state%d' % i, len(states))]
    flags, sha, gm = {'saved': (VALID, b's' * 20, 0o100644), 'unsaved': (IX_EXISTS, EMPTY_SHA, 0), 'changed': (IX_EXISTS, b's' * 20, 0o100644),
                      'deleted': (0, b's' * 20, 0o100644), 'mode0': (VALID, b's' * 20, 0)}[state]
    T = lambda n: times.make(ctx.int('%s%d' % (n, i), 1, 9), NS)
    if simple:
        return index.NewEntry(index.pathsplit(name)[-1], name, None, 1, 10 + i, 1 if isdir else ctx.int('nlink%d' % i, 1, 2), times.make(2, NS), times.make(1, NS), times.make(1, NS),
                              7 if isdir else u(ctx, 'size%d' % i, B), (0o40000 if isdir else 0o100000) | 0o755, gm, sha, flags, 50 + i, 0, 0), state
    return index.NewEntry(index.pathsplit(name)[-1], name, None, u(ctx, 'dev%d' % i, B), u(ctx, 'ino%d' % i, B), ctx.int('nlink%d' % i, 1, 3),
                          T('c'), T('m'), T('a'), u(ctx, 'size%d' % i, B), (0o40000 if isdir else 0o100000) | u(ctx, 'perm%d' % i, 9),
                          gm, sha, flags, 50 + i, 0, 0), state

def status(ctx, times, i, isdir, simple):
    if simple:
        return SimpleNamespace(st_dev=1, st_ino=10 + i, st_nlink=1 if isdir else ctx.int('snlink%d' % i, 1, 2),
                               st_ctime_ns=times.make((2, 3, 9)[ctx.choose('sc%d' % i, 3)] if isdir else 2, NS), st_mtime_ns=times.make(1, NS), st_atime_ns=times.make(1, NS),
                               st_size=7 if isdir else u(ctx, 'ssize%d' % i, B), st_mode=(0o40000 if isdir else 0o100000) | 0o755)
    T = lambda n: times.make(ctx.int('s%s%d' % (n, i), 1, 9), NS)
    return SimpleNamespace(st_dev=u(ctx, 'sdev%d' % i, B), st_ino=u(ctx, 'sino%d' % i, B), st_nlink=ctx.int('snlink%d' % i, 1, 3),
                           st_ctime_ns=T('c'), st_mtime_ns=T('m'), st_atime_ns=T('a'), st_size=u(ctx, 'ssize%d' % i, B),
                           st_mode=(0o40000 if isdir else 0o100000) | u(ctx, 'sperm%d' % i, 9))

def plain(x):
    return dict([(f, getattr(x, f)) for f in FIELDS], name=x.name)

def run_update(ctx, nrec, ncur, states, check_device, fake, names, check=False):
    fs, times = env(ctx)
    # recorded: / , /t/ and below it nrec files; another path outside /t/
    rn = [b'/t/' + (ctx.bytes('r%d' % i, 1, exclude=b'\0/') if names else bytes([99 - i])) for i in range(nrec)]
    for a, b in zip(rn, rn[1:]): ctx.assume(b < a)
    recs = [(index.NewEntry(b'z', b'/z', None, 1, 1, 2, times.make(3, NS), times.make(3, NS), times.make(3, NS), 7, 0o100644, 0o100644,
                            b'z' * 20, VALID, 44, 0, 0), 'saved')]
    recs += [recorded(ctx, times, i, n, False, states, names) for i, n in enumerate(rn)]
    # a directory is only valid while everything in it is
    if nrec: recs.append(recorded(ctx, times, 9, b'/t/', True, ['saved', 'changed'] if all([s in ('saved', 'deleted', 'mode0') for e, s in recs])
                                  else ['changed'], True))
    with index.Writer(b'ix', Store(), None) as w:
        for e, s in recs: w.add_ixentry(e)
        w.close()
    with index.Reader(b'ix') as r: before = [plain(e) for e in r]
    cn = [b'/t/' + (ctx.bytes('n%d' % i, 1, exclude=b'\0/') if names else bytes([99 - i])) for i in range(ncur)]
    for a, b in zip(cn, cn[1:]): ctx.assume(b < a)
    walk = [(n, status(ctx, times, i, False, names)) for i, n in enumerate(cn)] + [(b'/t/', status(ctx, times, 9, True, True))]
    now = 7 if names else ctx.int('now', 5, 8)
    links = Links([(e.name, (e.dev, e.ino)) for e, s in recs if e.nlink > 1 and s != 'deleted' and not stat.S_ISDIR(e.mode)])
    store = MetaStore()
    patch(index, 'MetaStoreWriter', lambda p: store)
    patch(cmd_index, 'hlinkdb', SimpleNamespace(HLinkDB=lambda p: links))
    patch(cmd_index, 'time', SimpleNamespace(time=lambda: Clock(now)))
    patch(cmd_index, 'recursive_dirlist', lambda *a, **k: list(walk))
    patch(cmd_index, 'metadata', SimpleNamespace(from_path=lambda path, statinfo: Meta(path)))
    patch(cmd_index, 'defaultrepo', lambda: b'/repo')
    patch(cmd_index, 'qprogress', lambda *a: None)
    patch(cmd_index, 'progress', lambda *a: None)
    patch(cmd_index, 'log', lambda *a: None)
    cmd_index.update_index(b'/t/', [], [], SimpleNamespace(meta=b'm', hlink=b'h', stat=b'ix'), check=check, check_device=check_device,
                           fake_valid=fake == 'valid', fake_invalid=fake == 'invalid')
    tmax = times.make(now - 1, 0)
    with index.Reader(b'ix') as r: after = [plain(e) for e in r]
    for a, b in zip(after, after[1:]): ctx.check(b['name'] < a['name'], 'names in descending order')
    def find(lst, name):
        hit = [e for e in lst if e['name'] == name]
        return hit[0] if hit else None
    for n, st in walk:
        e = find(after, n)
        ctx.check(e is not None, 'every current path is recorded')
        ctx.check(e['flags'] & IX_EXISTS, 'as existing')
        old = find(before, n)
        known = old is not None
        same = False
        if known:
            same = bool(and_(old['size'] == st.st_size, old['mtime'] == st.st_mtime_ns, old['ctime'] == st.st_ctime_ns, old['ino'] == st.st_ino,
                             old['nlink'] == st.st_nlink, or_(not check_device, old['dev'] == st.st_dev)))
        isdir = n == b'/t/'
        saved = known and old['flags'] == VALID and old['sha'] != EMPTY_SHA and old['gitmode'] != 0
        if saved and same:
            unsaved_child = any([find(before, c) is None or not (find(after, c)['flags'] & IX_HASHVALID) for c, _ in walk if c != n]) if isdir else False
            gone = any([find(after, x['name'])['flags'] == 0 and x['flags'] != 0 for x in before if x['name'].startswith(b'/t/') and x['name'] != b'/t/']) if isdir else False
            want_valid = not fake == 'invalid'
            if not isdir:
                ctx.check(bool(e['flags'] & IX_HASHVALID) == want_valid, 'an unchanged saved path stays valid')
            elif fake is None and (unsaved_child or gone):
                ctx.check(not_(e['flags'] & IX_HASHVALID), 'a directory with something to save is to be saved')
            for f in FIELDS:
                if f != 'flags' and not (isdir and fake): ctx.check(or_(e[f] == old[f], and_(isdir, unsaved_child)), 'unchanged %s' % f)
            ctx.reach('kept')
        else:
            ctx.check(bool(e['flags'] & IX_HASHVALID) == (fake == 'valid'), 'a new or changed path is to be saved')
            if known and not saved and same and old['flags'] & IX_EXISTS and old['sha'] != EMPTY_SHA and old['gitmode'] != 0: continue
            ctx.check(and_(e['size'] == st.st_size, e['ino'] == st.st_ino, e['nlink'] == st.st_nlink, e['dev'] == st.st_dev,
                           e['mode'] == st.st_mode, e['atime'] == st.st_atime_ns), 'the current attributes are recorded')
            if known: ctx.check(or_(e['mtime'] == st.st_mtime_ns, and_(st.st_mtime_ns > tmax, e['mtime'] == tmax)), 'modification time')
            else: ctx.check(e['mtime'] == ite(st.st_mtime_ns > tmax, tmax, st.st_mtime_ns), 'modification time, no later than safe')
            ctx.check(e['ctime'] == ite(st.st_ctime_ns > tmax, tmax, st.st_ctime_ns), 'change time, no later than safe')
            m = store.stored[e['meta_ofs']]
            ctx.check(m.path == n and m.frozen, 'metadata of the path itself')
            if fake is None: ctx.check(or_(e['sha'] == EMPTY_SHA, known), 'a new path has no content yet')
            ctx.reach('changed' if known else 'new')
            # and unless faked, what was recorded is stale if the same status is found again
            # with a change time that isn't safely in the past
    for old in before:
        n = old['name']
        if any([bool(n == c) for c, _ in walk]): continue
        e = find(after, n)
        ctx.check(e is not None, 'no record is lost')
        if n.startswith(b'/t/'):
            ctx.check(e['flags'] & VALID == 0, 'a path that is gone is marked deleted')
            ctx.reach('gone')
        elif n == b'/z':
            ctx.check(and_(*[e[f] == old[f] for f in FIELDS]), 'paths elsewhere are left alone')
    # hard links: exactly the existing multi-link files
    want = [(c, (st.st_dev, st.st_ino)) for c, st in walk if c != b'/t/' and st.st_nlink > 1] + [(b'/z', (1, 1))]
    ctx.check(len(links.saved) == len(want), 'hard link records')
    for p, node in want:
        hit = [v for k, v in links.saved.items() if k == p]
        ctx.check(len(hit) == 1, 'hard link recorded')
        if check_device: ctx.check(and_(hit[0][0] == node[0], hit[0][1] == node[1]), 'hard link node')

def run_again(ctx, changed):
    """Index, save, index again with nothing but the clock changed: a path whose times weren't
    safely in the past at the first run is to be saved again."""
    fs, times = env(ctx)
    st = status(ctx, times, 0, False, False)
    d = status(ctx, times, 9, True, True)
    now1, now2 = ctx.int('now1', 3, 12), ctx.int('now2', 4, 13)
    ctx.assume(now1 < now2)
    store = MetaStore()
    nows = [now1]
    patch(index, 'MetaStoreWriter', lambda p: store)
    patch(cmd_index, 'hlinkdb', SimpleNamespace(HLinkDB=lambda p: Links([])))
    patch(cmd_index, 'time', SimpleNamespace(time=lambda: Clock(nows[0])))
    patch(cmd_index, 'metadata', SimpleNamespace(from_path=lambda path, statinfo: Meta(path)))
    patch(cmd_index, 'defaultrepo', lambda: b'/repo')
    patch(cmd_index, 'qprogress', lambda *a: None)
    patch(cmd_index, 'progress', lambda *a: None)
    fsindex = SimpleNamespace(meta=b'm', hlink=b'h', stat=b'ix')
    def go(s, t):
        nows[0] = t
        patch(cmd_index, 'recursive_dirlist', lambda *a, **k: [(b'/t/f', s), (b'/t/', d)])
        cmd_index.update_index(b'/t/', [], [], fsindex)
    def save():
        with index.Reader(b'ix') as r:
            for e in r:
                if not e.is_valid():
                    e.validate(0o100644, b's' * 20)
                    e.repack()
    if changed:     # an older version has been recorded already
        old = SimpleNamespace(**dict(st.__dict__, st_size=st.st_size + 1, st_ctime_ns=times.make(0, 5)))
        go(old, 2)
        save()
    go(st, now1)
    save()
    go(st, now2)
    safe = and_(st.st_ctime_ns <= (now1 - 1) * 10 ** 9, True if changed else st.st_mtime_ns <= (now1 - 1) * 10 ** 9)
    with index.Reader(b'ix') as r: e = r.find(b'/t/f')
    if safe:
        ctx.check(e.is_valid(), 'nothing changed: still saved')
        ctx.reach('safe')
    else:
        ctx.check(not e.is_valid(), 'times too recent to be trusted: to be saved again')
        ctx.reach('unsafe')

def cases(tier):
    r = []
    T = tier == 'thorough'
    for cd in (True, False):
        r.append(Case('stale%s' % ('' if cd else ' no device check'), run_stale, ('stale', 'fresh'), bounds='every recorded and current stat value', check_device=cd))
    ALL = ['saved', 'unsaved', 'changed', 'deleted', 'mode0']
    for cd, fake, states in ((True, None, ALL), (False, None, ['saved', 'deleted']), (True, 'valid', ALL), (True, 'invalid', ALL)):
        r.append(Case('same path%s%s' % ('' if cd else ' no device check', ' fake ' + fake if fake else ''), run_update,
                      ('kept', 'changed'), bounds='one recorded path, indexed again with arbitrary attributes', nrec=1, ncur=1, states=states,
                      check_device=cd, fake=fake, names=False))
    for nrec, ncur, req in ((0, 1, ('new',)), (1, 0, ('gone',)), (1, 1, ('kept', 'changed', 'new', 'gone')), (2, 1, ('kept', 'changed', 'new', 'gone')),
                            (1, 2, ('kept', 'changed', 'new', 'gone'))) + (((2, 2, ('kept', 'changed', 'new', 'gone')),) if T else ()):
        r.append(Case('%d recorded, %d found' % (nrec, ncur), run_update, req, bounds='%d recorded and %d current paths with symbolic names' % (nrec, ncur),
                      nrec=nrec, ncur=ncur, states=['saved', 'deleted'] if nrec + ncur > 2 else ALL, check_device=True, fake=None, names=True, check=nrec == 1))
    for changed in (False, True):
        r.append(Case('index save index%s' % (' of a changed path' if changed else ''), run_again, ('safe', 'unsafe'),
                      bounds='any times and clock readings', changed=changed))
    return r
