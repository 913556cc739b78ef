META = {
 'level': 'model_checking',
 'assumptions': [
  'trees with one and two letter names and up to 3 symbolic links with targets of up to 4 (5) characters from "a", "b", "l", ".", "/", resolved paths of up '
  'to 4 (5) such characters or fixed longer ones; symlink targets are not empty',
  'at most 100 links are followed, then the walk fails with ELOOP',
 ],
}
import errno
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies, ite
from bup import vfs, git, metadata
from stat import S_ISDIR, S_ISLNK

# a directory is a dict, a file is an int, a link is its target (bytes)

class Store:
    def __init__(self):
        self.objs, self.kinds = {}, {}
        self.asked = []
    def is_remote(self): return False
    def put(self, kind, data):
        oid = b'o' * 16 + b'%04d' % len(self.objs)
        self.objs[oid] = data
        self.kinds[oid] = kind
        return oid
    def cat(self, ref):
        if ref == b'refs/heads/br': ref = self.head.hex().encode('ascii')
        elif len(ref) != 40: return None, None, None, None
        oid = bytes.fromhex(ref.decode('ascii'))
        return ref, self.kinds[oid], len(self.objs[oid]), iter([self.objs[oid]])

class Node:
    def __init__(self, st, what, meta, parent=None):
        self.parent = parent or self
        self.kids = None
        if isinstance(what, dict):
            self.kind, self.kids = 'd', {n: Node(st, w, meta, self) for n, w in what.items()}
            ents = [(({'d': 0o40000, 'f': 0o100644, 'l': 0o120000})[k.kind], n, k.oid) for n, k in self.kids.items()]
            if meta:
                m = metadata.Metadata(frozen=False)
                m.mode, m.uid, m.gid, m.user, m.group, m.atime, m.mtime, m.ctime, m.size, m.rdev = 0o40750, 1, 2, b'u', b'g', 3, 4, 5, 6, 0
                data = m.encode(include_path=False)
                for n in sorted(self.kids):
                    k = self.kids[n]
                    if k.kind == 'd': continue
                    m = metadata.Metadata(frozen=False)
                    m.mode, m.uid, m.gid, m.user, m.group, m.atime, m.mtime, m.ctime, m.rdev = {'f': 0o100600, 'l': 0o120777}[k.kind], 1, 2, b'u', b'g', 3, 4, 5, 0
                    m.size = 1 if k.kind == 'f' else len(k.target)
                    if k.kind == 'l': m.symlink_target = k.target
                    data += m.encode(include_path=False)
                ents.append((0o100644, b'.bupm', st.put(b'blob', data)))
            self.oid = st.put(b'tree', git.tree_encode(ents))
        elif isinstance(what, int): self.kind, self.oid = 'f', st.put(b'blob', b'%d' % what)
        else: self.kind, self.target, self.oid = 'l', what, st.put(b'blob', what)

class Walk:
    """a POSIX path walk: nodes by kind, or an error"""
    def __init__(self, root): self.root, self.hops = root, 0
    def split(self, path):
        out, cur = [], b''
        for i in range(len(path)):
            c = path[i:i + 1]
            if c == b'/': out.append(cur); cur = b''
            else: cur = cur + c
        return out + [cur]
    def walk(self, trail, path, follow):
        """trail: [(name, node)...] from the root; returns (trail, None) or (trail, errno); a missing name ends the trail with None"""
        parts = self.split(path)
        if len(parts) > 1 and len(parts[0]) == 0: trail = [(b'', self.root)]
        for i, p in enumerate(parts):
            final = True                 # nothing but slashes follow
            slash = i + 1 < len(parts)
            for q in parts[i + 1:]:
                if len(q): final = False
            if len(p) == 0: continue
            if trail[-1][1].kind != 'd': return trail, errno.ENOTDIR
            if p == b'.': continue
            if p == b'..':
                if len(trail) > 1: trail = trail[:-1]
                continue
            kid, name = None, p
            for n, k in trail[-1][1].kids.items():
                if p == n: kid, name = k, n
            if kid is None: return trail + [(p, None)], errno.ENOENT
            if kid.kind == 'l' and (follow or slash):
                self.hops += 1
                if self.hops > 101: return trail, errno.ELOOP
                trail, e = self.walk(trail, kid.target, True)
                if e: return trail, e
            else: trail = trail + [(name, kid)]
            if slash and trail[-1][1].kind != 'd': return trail, errno.ENOTDIR
        return trail, None

def tree(ctx, what, meta=False):
    st = Store()
    root = Node(st, what, meta)
    vfs.clear_cache()
    item = vfs.Item(meta=vfs.default_dir_mode, oid=root.oid)
    patch(vfs, '_root', item)
    return st, root

def compare(ctx, root, start, path, follow, resolve):
    want, err = Walk(root).walk([(b'', root)] + start, path, follow)
    try: got, e = resolve(), None
    except vfs.IOError as ex: got, e = None, ex.errno
    if err == errno.ENOENT:
        ctx.check(e is None and got is not None, 'a missing name is reported as such')
        ctx.check(len(got) == len(want), 'where a name is missing')
        ctx.check(got[-1][1] is None, 'a missing item')
        ctx.check(got[-1][0] == want[-1][0], 'which name is missing')
        for g, w in zip(got[:-1], want[:-1]): ctx.check(g[1].oid == w[1].oid, 'the way to the missing name')
        ctx.reach('missing')
        return
    ctx.check(e == err, 'the same kind of failure')
    if err: 
        ctx.reach('loop' if err == errno.ELOOP else 'not a directory')
        return
    ctx.check(len(got) == len(want), 'the depth')
    for g, w in zip(got, want):
        ctx.check(g[0] == w[0], 'the names')
        ctx.check(g[1] is not None and g[1].oid == w[1].oid, 'the same item')
        m = vfs.item_mode(g[1])
        ctx.check(('d' if S_ISDIR(m) else 'l' if S_ISLNK(m) else 'f') == w[1].kind, 'the kind of item')
    ctx.reach('found')

def target(ctx, n, t):
    """a fixed target or an arbitrary one of that length"""
    return t if isinstance(t, bytes) else ctx.bytes(n, t, alphabet=b'abl./')

def lay(ctx, layout):
    def f(w, n):
        if isinstance(w, dict): return {k: f(v, n + k.decode()) for k, v in w.items()}
        if isinstance(w, tuple): return target(ctx, 'target ' + n, w[0])
        return w
    return f(layout, '')

def run(ctx, layout, path, start, follow, want_meta, bupm):
    st, root = tree(ctx, lay(ctx, layout), bupm)
    p = target(ctx, 'path', path)
    trail = []
    node = root
    for n in start:
        node = node.kids[n]
        trail.append((n, node))
    parent = None
    if start: parent = [(b'', vfs._root)] + [(n, vfs.Item(meta=vfs.default_dir_mode, oid=k.oid)) for n, k in trail]
    if follow is None: follow = ctx.flag('follow')
    compare(ctx, root, trail, p, follow, lambda: vfs.resolve(st, p, parent=parent, want_meta=want_meta, follow=follow))
    # and again, from the cache
    compare(ctx, root, trail, p, follow, lambda: vfs.resolve(st, p, parent=parent, want_meta=want_meta, follow=follow))

def run_history(ctx, want_meta, path, kind):
    """Branches, saves, the newest save, and tags."""
    st = Store()
    a = Node(st, {b'f': 1, b'l': b'/.tag/t', b'u': b'../latest/f', b'r': b'../../.tag/t/f'}, False)
    b = Node(st, {b'f': 2}, False)
    date = [1600000000, 1600000000 + 1000 * ctx.choose('gap', 2)]
    com = [st.put(b'commit', b'tree %s\nparent %s\nauthor x <y> %d +0000\ncommitter x <y> %d +0000\n\nm\n'
                  % (t.oid.hex().encode(), b'0' * 40, d, d)) for t, d in zip((a, b), date)]
    st.head = com[1]
    vfs.clear_cache()
    patch(vfs, 'localtime', lambda t: t)
    patch(vfs, 'strftime', lambda f, t: '2020-09-13-%06d' % (t % 1000000))
    names = [b'br']
    def refs(patterns=None, limit_to_heads=False, limit_to_tags=False):
        out = [(b'refs/heads/br', com[1])] if limit_to_heads else []
        if limit_to_tags: out += [(b'refs/tags/s', com[0]), (b'refs/tags/t', com[1])]
        if patterns: out = [o for o in out if o[0] in patterns or o[0].split(b'/')[-1] in patterns]
        return iter(out)
    def rev_list(refs, format=None, parse=None):
        for c, t, d in ((com[1], b, date[1]), (com[0], a, date[0])):
            yield c.hex().encode(), (t.oid, d)
    st.refs, st.rev_list = refs, rev_list
    same = date[0] == date[1]
    newer, older = b'2020-09-13-%06d' % (date[1] % 1000000), b'2020-09-13-%06d' % (date[0] % 1000000)
    if same: newer, older = newer + b'-1', older + b'-0'
    p = path.replace(b'OLD', older).replace(b'NEW', newer)
    try: got = vfs.resolve(st, p, want_meta=want_meta)
    except vfs.IOError as e: got = e.errno
    if kind == 'missing':
        ctx.check(got[-1][1] is None, 'missing')
    elif isinstance(kind, int): ctx.check(got == kind, 'an error')
    else:
        leaf = got[-1][1]
        ctx.check(leaf is not None, 'found')
        want = {'new f': b.kids[b'f'].oid, 'old f': a.kids[b'f'].oid, 'new': b.oid, 'old': a.oid}.get(kind)
        if want: ctx.check(leaf.oid == want, 'the item')
        elif kind == 'branch': ctx.check(isinstance(leaf, vfs.RevList) and leaf.oid == com[1], 'the branch')
        else: ctx.check(isinstance(leaf, {'root': vfs.Root, 'tags': vfs.Tags}[kind]), 'kind')
        if kind in ('new', 'old'): ctx.check(isinstance(leaf, vfs.Commit) and leaf.coid == com[kind == 'new'], 'the save')
    ctx.reach('history')

def cases(tier):
    deep = tier == 'thorough'
    out = []
    flat = {b'a': 1, b'b': {b'a': 2, b'b': {}, b'l': b'../a'}, b'l': b'b'}
    def add(n, layout, path, start=(), follow=None, want=('found',), bupm=False, meta=None, weight=1):
        for wm in (False, True) if meta is None else (meta,):
            out.append(Case('%s meta=%d%s' % (n, wm, ' bupm' if bupm else ''), run, list(want), bounds='both ways to treat a final link', layout=layout, path=path, start=start,
                            follow=follow, want_meta=wm, bupm=bupm, weight=weight, witnesses=4))
    for n in (1, 2, 3): add('any path of %d' % n, flat, n)
    add('any path of 4', flat, 4, weight=9, meta=True, want=('found', 'missing', 'not a directory'))
    add('any path of 3 in b', flat, 3, (b'b',), weight=3)
    add('any path of 3 with metadata', flat, 3, (), bupm=True, meta=True, weight=3)
    if deep:
        add('any path of 5', flat, 5, weight=30)
        add('any path of 4 in b/b', flat, 4, (b'b', b'b'), weight=9)
        add('any path of 4 with metadata', flat, 4, (), bupm=True, meta=True, weight=9)
    one = lambda n: {b'a': 1, b'b': {b'a': 2, b'b': {b'a': 3}}, b'l': (n,)}
    inner = lambda n: {b'a': 1, b'b': {b'a': 2, b'b': {}, b'l': (n,)}, b'l': b'b'}
    for n in (1, 2, 3) + ((4,) if deep else ()):
        w = 3 ** n
        for p in (b'l', b'l/', b'l/a', b'l/b/a', b'l/..', b'l/../a', b'./l//b/'):
            add('%s, any link of %d' % (p.decode(), n), one(n), p, want=('found',), meta=bool(len(p) % 2) if not deep else None, weight=w)
        for p in (b'b/l', b'l/l/a', b'/b/l/b'):
            add('%s, any link below of %d' % (p.decode(), n), inner(n), p, want=(), meta=bool(len(p) % 2) if not deep else None, weight=w)
        add('l from b, any link below of %d' % n, inner(n), b'l/a', (b'b',), want=(), meta=n % 2 == 0, weight=w)
        add('with metadata, any link of %d' % n, one(n), b'l/a', want=('found',), meta=True, bupm=True, weight=w)
    two = {b'a': (2,), b'b': {b'a': 2, b'b': {b'l': 3}}, b'l': (2,)}
    add('two links', two, b'l/b', want=('found', 'loop'), meta=True, weight=20)
    add('two links, final', two, b'a', want=('found', 'loop'), meta=False, weight=20)
    if deep:
        three = {b'a': (3,), b'b': {b'a': (1,), b'b': {b'l': 3}}, b'l': (2,)}
        add('three links', three, b'l/b', want=('found', 'loop'), meta=True, weight=60)
        add('three links, final', three, b'b/a/', want=('found', 'loop'), meta=False, weight=60)
    for p, k in ((b'/', 'root'), (b'br', 'branch'), (b'/br/latest', 'new'), (b'br/latest/f', 'new f'), (b'br/OLD/f', 'old f'), (b'br/OLD', 'old'), (b'br/NEW', 'new'),
                 (b'br/OLD/l', 'new'), (b'br/OLD/l/f', 'new f'), (b'br/OLD/u', 'new f'), (b'br/OLD/r', 'new f'), (b'.tag', 'tags'), (b'.tag/s', 'old'), (b'.tag/s/f', 'old f'), (b'/.tag/t/../s/f', 'old f'),
                 (b'br/..', 'root'), (b'br/../..', 'root'), (b'br/nope', 'missing'), (b'nope', 'missing'), (b'.tag/nope/f', 'missing'), (b'br/latest/f/x', 20), (b'br/latest/f/', 20), (b'br/latest/../OLD/f', 'old f')):
        for wm in (False, True):
            out.append(Case('history %s meta=%d' % (p.decode(), wm), run_history, ['history'], bounds='equal or different dates', want_meta=wm, path=p, kind=k))
    return out
