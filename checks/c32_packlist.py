META = {
 'level': 'model_checking',
 'assumptions': [
  'single pack indexes, multi-pack indexes and bloom filters answer as decided for properties C04, C05 and C06: they are stand-ins '
  'here with arbitrary contents (a bloom filter may in addition say yes for anything)',
  'while a list is open indexes are added but not removed (multi-pack indexes and bloom filters come and go), and the directory does '
  'not change during one call',
 ],
}
import fnmatch, os
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from bup import git, midx
from bup.bloom import BloomInvalid, BloomNotFound
from bup.helpers import ObjectLocation, OBJECT_EXISTS

DIR = b'/r/objects/pack'
OIDS = (b'a' * 20, b'b' * 20)

def name(i): return b'pack-%040x.idx' % i

class Idx(git.PackIdx):
    def __init__(self, w, i):
        self.w, self.i, self.name, self.open = w, i, DIR + b'/' + name(i), True
        w.opened.append(self)
    def exists(self, hash, want_source=False, want_offset=False):
        assert self.open
        if not self.w.has[self.i][OIDS.index(hash)]: return None
        if not (want_source or want_offset): return OBJECT_EXISTS
        return ObjectLocation(name(self.i) if want_source else None, self.w.ofs[self.i] if want_offset else None)
    def __len__(self): return self.w.size[self.i]
    def __hash__(self): return self.i
    def __eq__(self, o): return self is o
    def close(self): self.open = False
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __del__(self): pass

class Midx(midx.PackMidx):
    def __init__(self, w, m):
        self.w, self.m, self.name, self.open = w, m, DIR + b'/' + m.name, True
        self.idxnames = [name(i) for i in m.of]
        self.closed = True
        w.opened.append(self)
    def exists(self, hash, want_source=False, want_offset=False):
        assert self.open
        assert not want_offset
        for i in self.m.of:
            if self.w.has[i][OIDS.index(hash)]:
                return ObjectLocation(name(i), None) if want_source else OBJECT_EXISTS
        return None
    def __hash__(self): return 10 + self.name[-6]
    def __eq__(self, o): return self is o
    def __len__(self):
        n = 0
        for i in self.m.of: n = n + self.w.size[i]
        return n
    def close(self): self.open = False
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __del__(self): pass

class Bloom:
    def __init__(self, w, b): self.w, self.b, self.open = w, b, True
    def exists(self, hash):
        assert self.open
        k = OIDS.index(hash)
        for i in self.b.of:
            if self.w.has[i][k]: return True
        if self.w.falsep[k]: return True
        return None
    def __len__(self):
        n = self.b.extra
        for i in self.b.of: n = n + self.w.size[i]
        return n
    def __bool__(self): return self.__len__() > 0
    def close(self): self.open = False
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

class World:
    def __init__(self, ctx, n):
        self.ctx, self.n = ctx, n
        self.idx, self.midxs, self.bloom, self.opened = set(), {}, None, []
        self.has = [[ctx.bool('has%d_%d' % (i, k)) for k in range(len(OIDS))] for i in range(n)]
        self.size = [ctx.int('size%d' % i, 1, ctx.sizes) for i in range(n)]
        self.ofs = [ctx.int('ofs%d' % i, 0, 1 << 40) for i in range(n)]
        self.falsep = [ctx.bool('false%d' % k) for k in range(len(OIDS))]
        self.mtime = {}
    def glob(self, pat):
        names = [name(i) for i in sorted(self.idx)] + sorted(self.midxs)
        return [DIR + b'/' + x for x in names if fnmatch.fnmatchcase(DIR + b'/' + x, pat)]
    def open_idx(self, p):
        for i in sorted(self.idx):
            if p == DIR + b'/' + name(i): return Idx(self, i)
        raise FileNotFoundError(2, 'none', p)
    def open_midx(self, p, *, ignore_missing=True):
        m = self.midxs[os.path.basename(p)]
        if m.old: return None
        missing = [DIR + b'/' + name(i) for i in m.of if i not in self.idx]
        if missing:
            if ignore_missing: return None
            raise midx.MissingIdxs(paths=missing)
        return Midx(self, m)
    def unlink(self, p):
        p = os.path.basename(p)
        self.ctx.check(p in self.midxs, 'only multi-pack indexes are removed')
        self.midxs.pop(p, None)
    def open_bloom(self, p):
        if self.bloom is None: raise BloomNotFound('none')
        if self.bloom.bad: raise BloomInvalid('bad')
        return Bloom(self, self.bloom)
    def install(self):
        patch(git, '_mpi_count', 0)
        patch(git, 'log', lambda *a: None)
        patch(git, 'glob', SimpleNamespace(glob=self.glob))
        patch(git, 'open_idx', self.open_idx)
        patch(git, 'open_midx', self.open_midx)
        patch(git, 'unlink', self.unlink)
        patch(git, 'BloomReader', self.open_bloom)
        patch(git, 'xstat', SimpleNamespace(stat=lambda p: SimpleNamespace(st_mtime_ns=self.midxs[os.path.basename(p)].mtime)))
        patch(git, 'os', SimpleNamespace(path=SimpleNamespace(join=os.path.join, exists=lambda p: True, split=os.path.split, basename=os.path.basename)))

def place_midx(ctx, w, tag, masks):
    """one more multi-pack index, or none"""
    k = ctx.choose('m' + tag, len(masks) + 1)
    if k == 0: return
    of = [i for i in range(w.n) if masks[k - 1] >> i & 1]
    nm = b'midx-' + tag.encode() + b'.midx'
    w.midxs[nm] = SimpleNamespace(name=nm, of=of, old=False, mtime=ctx.int('t' + tag, 0, 5))

def place_bloom(ctx, w, tag, masks, stale):
    """the bloom filter: none, invalid, or with the entries of some of the indexes (and possibly of removed ones)"""
    k = ctx.choose('b' + tag, len(masks) + 2)
    if k == 0: w.bloom = None; return
    of = [i for i in range(w.n) if k > 1 and masks[k - 2] >> i & 1]
    w.bloom = SimpleNamespace(of=of, bad=k == 1, extra=(1, 4)[ctx.choose('extra' + tag, 2)] if stale else 0)

def queries(ctx, w, L, tag, n, visible, exact):
    for q in range(n):
        k = ctx.choose('q%s%d' % (tag, q), ctx.oids) if ctx.oids > 1 else 0
        how = ctx.hows[ctx.choose('h%s%d' % (tag, q), len(ctx.hows))]
        r = L.exists(OIDS[k], want_source=how >= 1, want_offset=how == 2)
        listed = or_(*[w.has[i][k] for i in visible])
        ctx.check(implies(r is not None, listed), 'an object is only reported when an index lists it')
        if exact or r is not None: ctx.check(implies(listed, r is not None), 'an object which an index lists is reported')
        if r is not None: ctx.reach('found')
        else: ctx.reach('missing')
        if r is not None and how >= 1:
            src = [i for i in visible if r.pack == name(i)]
            ctx.check(len(src) == 1, 'the reported index exists')
            ctx.check(w.has[src[0]][k], 'the reported index lists the object')
            if how == 2: ctx.check(r.offset == w.ofs[src[0]], 'the reported offset is the one in that index')
        elif r is not None:
            ctx.reach('plain')

def check_bloom_exact(w):
    """True when the filter is as bup maintains it: it contains nothing of removed indexes"""
    return w.bloom is None or w.bloom.bad or (w.bloom.extra == 0 and all(i in w.idx for i in w.bloom.of))

def run(ctx, start, later, masks, bmasks, nq, stale=False, ignore=False, two=False, how='refresh', nq2=None, sizes=2, hows=(0, 2), oids=1):
    ctx.sizes, ctx.hows, ctx.oids = sizes, hows, oids
    w = World(ctx, max(start + later) + 2)      # (the last index does not exist)
    w.install()
    w.idx = set(start)
    place_midx(ctx, w, 'a', masks)
    if two: place_midx(ctx, w, 'b', masks)
    place_bloom(ctx, w, 'a', bmasks, stale)
    exact = not stale
    for i in w.idx: pass
    L = git.PackIdxList(DIR, ignore_midx=ignore)
    try:
        visible = sorted(w.idx)
        queries(ctx, w, L, 'x', nq, visible, exact and check_bloom_exact(w))
        if later:
            w.idx |= set(later)
            ctx.drop = ctx.flag('drop')
            if how == 'breakpoint': L.close_temps()
            # auto_midx may replace the multi-pack indexes and the filter
            if ctx.drop: w.midxs.clear()
            place_midx(ctx, w, 'c', masks)
            if ctx.drop or ctx.flag('newbloom'): place_bloom(ctx, w, 'c', bmasks, stale)
            L.refresh(**({'skip_midx': True} if how == 'skip' else {}))
            visible = sorted(w.idx)
            queries(ctx, w, L, 'y', nq if nq2 is None else nq2, visible, exact and check_bloom_exact(w))
    finally:
        L.close()
    for x in w.opened: ctx.check(not x.open, 'every index is closed')
    ctx.reach('done')

R = ('found', 'missing', 'plain', 'done')
def cases(tier):
    t = tier == 'thorough'
    B = 'indexes of 1 to 2 (thorough 3) objects with any contents; up to %s multi-pack index(es) over any of %s (some with missing indexes); bloom filter absent, invalid or over any of %s; '
    M3, B3 = (3, 6, 7, 10, 2), (7, 3, 4)
    S, L, N, M, BM = ([0, 1], [2], '2, then 3 ', (3, 7, 10), (3, 7)) if t else ([0], [1], '1, then 2 ', (1, 3, 5), (1, 3))
    return [
     Case('load', run, R, start=[0, 1, 2], later=[], masks=M3, bmasks=B3, nq=2 if t else 1, weight=2, bounds='3 ' + B % (1, '5 sets', '3 sets') + '1 (thorough 2) queries'),
     Case('load-two', run, R, start=[0, 1, 2], later=[], masks=(3, 6, 7) if not t else M3, bmasks=(7, 3), nq=1, two=True, weight=3,
          bounds='3 ' + B % (2, '3 (thorough 5) sets', '2 sets') + '1 query'),
     Case('sequence', run, R, start=[0, 1], later=[], masks=(3,), bmasks=(3, 1), nq=3 if t else 2, weight=3, hows=(0, 1, 2), oids=2, bounds='2 ' + B % (1, '1 set', '2 sets') + '2 (thorough 3) queries'),
     Case('stale', run, R, start=[0, 1], later=[], masks=(3, 1, 7), bmasks=(3, 2, 4), nq=2, stale=True, weight=2,
          bounds='2 ' + B % (1, '3 sets', '3 sets') + 'filter with up to 20 entries of removed indexes; 2 queries'),
     Case('refresh', run, R if t else ('found', 'missing', 'done'), hows=(0, 2) if t else (2,), start=S, later=L, masks=M, bmasks=BM, nq=1, weight=4, budget=1500, bounds=N + B % (2, 'several sets', '2 sets') + '1 query before and after'),
     Case('refresh-stale', run, R if t else ('found', 'missing', 'done'), hows=(0, 2) if t else (2,), start=S, later=L, masks=M[:2], bmasks=BM, nq=1, stale=True, weight=4, budget=1500,
          bounds=N + B % (2, '2 sets', '2 sets') + 'filter with 1 or 4 entries of removed indexes; 1 query before and after'),
     Case('breakpoint', run, R if t else ('found', 'missing', 'done'), hows=(0, 2) if t else (2,), start=S, later=L, masks=M, bmasks=BM, nq=1, how='breakpoint', weight=4, budget=1500,
          bounds=N + B % (2, 'several sets', '2 sets') + '1 query before and after a finished pack'),
     Case('skip', run, R, start=S, later=L, masks=M[:2], bmasks=BM[1:], nq=1, how='skip', weight=3, bounds=N + B % (2, '2 sets', '1 set') + 'refreshed without multi-pack indexes'),
     Case('ignore', run, R, start=S, later=L, masks=M[:2], bmasks=BM[1:], nq=1, ignore=True, weight=3, bounds=N + B % (2, '2 sets', '1 set') + 'multi-pack indexes ignored'),
    ]
