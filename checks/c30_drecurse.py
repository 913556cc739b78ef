META = {
 'level': 'model_checking',
 'assumptions': [
  'the filesystem is a stand-in with the same calls (listdir, lstat, open) that bup makes; it does not change during the walk, '
  'directory entries are distinct names without NUL or slash, other than . and .. ',
  'exclusion lists are what parse_excludes and parse_rx_excludes return (decided separately); regular expressions are a fixed set',
  'device numbers are not zero',
 ],
}
import os, re, stat
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from bup import drecurse, helpers, index, metadata
from bup.cmd import index as cmd_index

class Name:
    """a directory entry as os.listdir() gives it for a directory descriptor"""
    def __init__(self, b): self.b = b
    def __add__(self, s): return Name(self.b + s.encode())

class Node:
    def __init__(self, name, kind, dev, children=(), bad=None):
        self.name, self.kind, self.dev, self.children, self.bad = name, kind, dev, children, bad
    def st(self):
        return SimpleNamespace(st_mode={'dir': stat.S_IFDIR, 'file': stat.S_IFREG, 'link': stat.S_IFLNK}[self.kind] | 0o755,
                               st_dev=self.dev, node=self)

class FS:
    def __init__(self, roots):
        self.roots, self.fds, self.open = roots, [], set()
    def find(self, nodes, name):
        for n in nodes:
            if n.name == name: return n
        raise FileNotFoundError(2, 'none')
    def fd(self, node):
        if node.bad == 'open': raise PermissionError(13, 'no')
        assert node.kind == 'dir'
        self.fds.append(node); self.open.add(len(self.fds) - 1)
        return len(self.fds) - 1
    def strip(self, name): return name[:-1] if name[-1] == 47 else name
    def open_root(self, path, flags): return self.fd(self.find(self.roots, self.strip(path)))
    def openat(self, fd, name, flags):
        assert fd in self.open
        return self.fd(self.find(self.fds[fd].children, self.strip(name)))
    def listdir(self, fd):
        assert fd in self.open
        return [Name(n.name) for n in self.fds[fd].children]
    def close(self, fd): self.open.remove(fd)
    def lstat(self, p, dir_fd=None):
        n = self.find(self.fds[dir_fd].children, p.b) if dir_fd is not None else self.find(self.roots, self.strip(p))
        if n.bad == 'lstat': raise PermissionError(13, 'no')
        return n.st()
    def install(self, errors):
        patch(drecurse, 'xstat', SimpleNamespace(lstat=self.lstat))
        patch(drecurse, 'open_noatime', self.open_root)
        patch(drecurse, 'openat_noatime', self.openat)
        patch(drecurse, 'fsencode', lambda n: n.b)
        patch(drecurse, 'os', SimpleNamespace(listdir=self.listdir, close=self.close, path=os.path))
        patch(drecurse, 'add_error', errors.append)
        patch(drecurse, 'resolve_parent', lambda p: p)

def entry(ctx, tag, n, used, alphabet):
    nm = ctx.bytes(tag, n, alphabet=alphabet)
    ctx.assume(and_(nm != b'.', nm != b'..'))
    for o in used: ctx.assume(nm != o)
    used.append(nm)
    return nm

def build(ctx, shape, alphabet, devs, bads, tag='n'):
    """shape: a list of (length of the name, kind, children)"""
    used, out = [], []
    for i, (n, kind, kids) in enumerate(shape):
        t = '%s%d' % (tag, i)
        nm = entry(ctx, t, n, used, alphabet)
        out.append(Node(nm, kind, devs.get(t, 1), build(ctx, kids, alphabet, devs, bads, t), bads.get(t)))
    return out

def walk(ctx, shape, roots=('/r',), alphabet=b'ab-/'.replace(b'/', b''), excl=(), rxs=(), bup=None, xdev=False, devs={}, bads={},
         xexc=None, via='drecurse'):
    env = {}
    fsroots = []
    for k, r in enumerate(roots):
        rk = 'file' if r.endswith('!') else 'dir'
        r = r.rstrip('!').encode()
        fsroots.append(Node(r, rk, devs.get('r%d' % k, 1), build(ctx, shape[k], alphabet, devs, bads, 'n%d' % k) if rk == 'dir' else [],
                            bads.get('r%d' % k)))
    fs = FS(fsroots)
    errors = []
    fs.install(errors)
    ex = []
    for i, (base, n) in enumerate(excl):
        ex.append(base.encode() + b'/' + ctx.bytes('x%d' % i, n, alphabet=bytes(alphabet) + b'/'))
        tail = ex[-1][len(base) + 1:]
        for c in tail.split(b'/'): ctx.assume(and_(len(c) > 0, c != b'.', c != b'..'))
    bupdir = None
    if bup is not None:
        bupdir = bup[0].encode() + b'/' + ctx.bytes('bup', bup[1], alphabet=alphabet)
    exceptions = set()
    if xexc is not None: exceptions = frozenset([xexc[0].encode() + b'/' + ctx.bytes('xe', xexc[1], alphabet=alphabet) + b'/'])
    pats = [re.compile(x) for x in rxs]
    got = list(drecurse.recursive_dirlist([n.name for n in fsroots], xdev, bup_dir=bupdir, excluded_paths=ex or None,
                                          exclude_rxs=pats or None, xdev_exceptions=exceptions))
    ctx.check(not fs.open, 'every directory is closed')
    # what must be visited: (path as listed, node, condition)
    want, bad = [], [0]
    def visit(node, path, ok, rootdev):
        full = path + b'/' if node.kind == 'dir' else path
        keep = ok
        for x in ex: keep = and_(keep, path != x)
        for p in rxs: keep = and_(keep, not_(oracle(p, full)))
        if node.kind == 'dir' and bupdir is not None: keep = and_(keep, path != bupdir)
        if node.bad == 'lstat':
            bad.append(ok); return
        want.append((full, node, keep))
        if node.kind != 'dir': return
        below = keep
        if xdev and node.dev != rootdev:
            below = and_(below, or_(*[full == e for e in exceptions]) if exceptions else False)
        if node.bad == 'open':
            bad.append(below); return
        for c in node.children: visit(c, full + c.name, below, rootdev)
    for r in fsroots:
        if r.bad:
            bad.append(True); continue
        if r.kind != 'dir':
            want.append((r.name, r, True)); continue
        want.append((r.name + b'/', r, True))
        for c in r.children: visit(c, r.name + b'/' + c.name, True, r.dev)
    for full, node, keep in want:
        hits = [i for i, (p, st) in enumerate(got) if st.node is node]
        ctx.check(len(hits) <= 1, 'a path is visited once')
        if hits:
            ctx.check(keep, 'an excluded path is not visited')
            ctx.check(got[hits[0]][0] == full, 'the path is as it should be')
        else:
            ctx.check(not_(keep), 'every other path is visited')
            ctx.reach('skipped')
    nodes = [n for _, n, _ in want]
    ctx.check(all(any(st.node is n for n in nodes) for p, st in got), 'nothing else is visited')
    pos = {id(st.node): i for i, (p, st) in enumerate(got)}
    for _, n, _ in want:
        for c in n.children:
            if id(c) in pos and id(n) in pos: ctx.check(pos[id(c)] < pos[id(n)], 'contents before their directory')
    if len(roots) == 1:
        for a, b in zip(got, got[1:]): ctx.check(a[0] > b[0], 'paths come in descending order')
    if bads: ctx.check(len(errors) == sum(1 for b in bad[1:] if b), 'what cannot be read is reported')
    ctx.reach('done')

def oracle(p, path):
    """the patterns used, spelled out"""
    if p == b'b/$': return path.endswith(b'b/')
    if p == b'^/r/a': return path.startswith(b'/r/a')
    if p == b'a-': return path.find(b'a-') != -1
    raise KeyError(p)

def run_parse(ctx, n, lines):
    """the options that give exclusions"""
    data = b''.join([ctx.bytes('l%d' % i, k, alphabet=b'a/ \n') for i, k in enumerate(lines)])
    opt = b'/' + ctx.bytes('o', n, alphabet=b'a/ ')
    class F:
        def __init__(self, d): self.d = d
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def readlines(self): return list(self)
        def __iter__(self):
            rest = self.d
            while len(rest):
                a, s, rest = rest.partition(b'\n')
                yield a + s
    opened = []
    patch(helpers, 'open', lambda p, m: (opened.append((p, m)), F(data))[1])
    patch(helpers, 'resolve_parent', lambda p: b'R' + p)
    patch(helpers, 'argv_bytes', lambda p: p)
    def fatal(msg): ctx.fail('no error: ' + msg)
    got = helpers.parse_excludes([('-x', ''), ('--exclude', opt), ('--exclude-rx', b'y'), ('--exclude-from', b'file')], fatal)
    ctx.check(opened == [(b'Rfile', 'rb')], 'the file is read')
    want = [b'R' + opt]
    for l in data.split(b'\n'):
        if len(l.strip()): want.append(b'R' + l.strip())
    for w in want: ctx.check(or_(*[w == g for g in got]) if got else False, 'every exclusion is kept')
    for g in got: ctx.check(or_(*[w == g for w in want]), 'nothing else is excluded')
    ctx.reach('paths')

def run_rx(ctx, lines):
    data = b''.join([ctx.bytes('l%d' % i, k, alphabet=b'a.\n') for i, k in enumerate(lines)])
    class F:
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def readlines(self):
            rest, out = data, []
            while len(rest):
                a, s, rest = rest.partition(b'\n')
                out.append(a + s)
            return out
    patch(helpers, 'open', lambda p, m: F())
    patch(helpers, 'resolve_parent', lambda p: p)
    patch(helpers, 're', SimpleNamespace(compile=lambda p: ('rx', p), error=re.error))
    got = helpers.parse_rx_excludes([('--exclude-rx', 'x$'), ('--exclude', 'z'), ('--exclude-rx-from', 'f')], None)
    want = [b'x$'] + [l for l in data.split(b'\n') if len(l)]
    ctx.check(len(got) == len(want), 'the number of patterns')
    for (k, g), w in zip(got, want): ctx.check(g == w, 'the patterns are taken as they are')
    ctx.reach('patterns')

class Rx:
    def __init__(self, pattern, hit): self.pattern, self.hit, self.seen = pattern, hit, []
    def search(self, p):
        self.seen.append(p)
        return self if self.hit else None

def run_should(ctx):
    hits = [ctx.flag('h%d' % i) for i in range(3)]
    ctx.check(bool(helpers.should_rx_exclude_path(b'/p', [Rx(b'x', h) for h in hits])) == any(hits), 'any pattern excludes')
    ctx.reach('any')

def run_reduce(ctx, ns, kinds):
    """the requested roots: overlapping ones are walked once"""
    paths = [b'/' + ctx.bytes('p%d' % i, n, alphabet=b'a-/') for i, n in enumerate(ns)]
    for i, p in enumerate(paths):
        ctx.assume(and_(p.find(b'//') == -1, not_(p.endswith(b'/')) if len(p) > 1 else True))
        for j in range(i):
            # one kind for one path; what has something below is a directory
            if kinds[i] != kinds[j]: ctx.assume(p != paths[j])
            if kinds[i] == 'file': ctx.assume(not_(paths[j].startswith(p + b'/')))
            if kinds[j] == 'file': ctx.assume(not_(p.startswith(paths[j] + b'/')))
    patch(index, 'resolve_parent', lambda p: p)
    def lstat(p):
        for q, k in zip(paths, kinds):
            if q == p: return SimpleNamespace(st_mode=stat.S_IFDIR if k == 'dir' else stat.S_IFREG)
        raise FileNotFoundError(p)
    patch(index, 'os', SimpleNamespace(lstat=lstat, path=os.path))
    got = index.reduce_paths(paths)
    full = [p if k == 'file' or p.endswith(b'/') else p + b'/' for p, k in zip(paths, kinds)]
    def covers(a, b): return or_(a == b, b.startswith(a) if a.endswith(b'/') else False)
    for f in full: ctx.check(or_(*[covers(r, f) for r, _ in got]), 'every requested path is covered')
    for i, (r, _) in enumerate(got):
        ctx.check(or_(*[r == f for f in full]), 'only requested paths are walked')
        for j, (s, _) in enumerate(got):
            if i != j: ctx.check(not_(covers(r, s)), 'nothing is walked twice')
    for a, b in zip(got, got[1:]): ctx.check(a[0] > b[0], 'in descending order')
    if len(got) < len(full): ctx.reach('reduced')
    ctx.reach('done')

F = lambda n: (n, 'file', ())
L = lambda n: (n, 'link', ())
D = lambda n, *kids: (n, 'dir', kids)

def cases(tier):
    big = tier == 'thorough'
    cs = []
    def add(name, labels=('done',), **k):
        b = '%s; names over %r' % (k.get('shape'), k.get('alphabet', b'ab-'))
        cs.append(Case('walk ' + name, walk, labels, bounds=b, **k))
    add('plain', shape=[[F(1), D(1, F(1), L(1)), F(2), D(2)]])
    add('any bytes', shape=[[F(2), D(1, F(1))]], alphabet=bytes(b for b in range(1, 256) if b != 47))
    add('exclude top', ('done', 'skipped'), shape=[[F(1), D(1, F(1)), D(2, F(1)), F(2)]], excl=[('/r', 1), ('/r', 2)])
    add('exclude deep', ('done', 'skipped'), shape=[[D(1, F(1), D(1, F(1))), D(1, F(1))]], excl=[('/r', 3)])
    add('exclude elsewhere', shape=[[D(1, F(1))]], excl=[('/s', 1), ('/r2', 1)])
    for i, rx in enumerate((b'b/$', b'^/r/a', b'a-')):
        add('pattern %d' % i, ('done', 'skipped'), shape=[[F(2), D(1, F(1), D(1)), D(2, F(1))]], rxs=[rx])
    add('patterns and paths', ('done', 'skipped'), shape=[[F(1), D(1, F(1)), D(2, F(1))]], rxs=[b'a-', b'b/$'], excl=[('/r', 3)])
    add('repository', ('done', 'skipped'), shape=[[F(1), D(1, F(1)), D(1, D(1))]], bup=('/r', 1))
    add('one filesystem', ('done', 'skipped'), shape=[[F(1), D(1, F(1), D(1, F(1))), D(1, F(1))]], xdev=True,
        devs=dict(n01=2, n010=2, n011=2, n0110=2))
    add('other filesystem below', ('done', 'skipped'), shape=[[D(1, D(1, F(1)), F(1)), F(1)]], xdev=True, devs=dict(n000=3, n0000=3))
    add('filesystem exception', ('done', 'skipped'), shape=[[D(1, F(1), D(1, F(1))), D(1, F(1))]], xdev=True,
        devs=dict(n00=2, n000=2, n001=2, n0010=2, n01=3, n010=3), xexc=('/r', 1))
    add('all filesystems', shape=[[D(1, F(1)), F(1)]], devs=dict(n00=2, n000=2))
    add('two roots', ('done', 'skipped'), roots=('/r', '/q'), shape=[[D(1, F(1))], [D(1, F(1)), F(1)]], xdev=True,
        devs=dict(r1=2, n10=2, n100=2, n11=2, n00=2, n000=2), excl=[('/q', 1)])
    add('file root', roots=('/f!', '/r'), shape=[[], [F(1)]])
    add('unreadable', shape=[[D(1, F(1)), F(1), D(1, F(1), F(1))]], bads=dict(n00='open', n01='lstat', n021='lstat'))
    add('unreadable excluded', shape=[[D(1, F(1)), F(1)]], bads=dict(n01='lstat'), excl=[('/r', 1)])
    add('unreadable root', roots=('/r', '/q'), shape=[[F(1)], [F(1)]], bads=dict(r0='open'))
    add('missing root', roots=('/r', '/q'), shape=[[F(1)], [F(1)]], bads=dict(r0='lstat'))
    if big:
        add('plain 3', shape=[[F(2), D(2, F(2)), F(2), D(1, F(1), F(2))]])
        add('exclude long', ('done', 'skipped'), shape=[[D(2, F(2), D(1)), D(1, D(1, F(1))), F(2)]], excl=[('/r', 3), ('/r', 5)])
        for i, rx in enumerate((b'b/$', b'^/r/a', b'a-')):
            add('long pattern %d' % i, ('done', 'skipped'), shape=[[F(3), D(2, F(2), D(1)), D(2, F(1))]], rxs=[rx], excl=[('/r', 2)])
        add('nested filesystems', ('done', 'skipped'), shape=[[D(1, D(1, D(1, F(1)))), D(2, F(1)), F(2)]], xdev=True,
            devs=dict(n000=2, n0000=1, n00000=1), xexc=('/r', 1), excl=[('/r', 1)])
    for n, lines in ((1, (3,)), (2, (2, 3)), (1, (5,))) + (((2, (6,)),) if big else ()):
        cs.append(Case('exclude options %d %s' % (n, lines), run_parse, ('paths',), bounds='option of %d bytes, file of %d' % (n, sum(lines)), n=n, lines=lines))
    for lines in ((3,), (5,)): cs.append(Case('exclude patterns %s' % (lines,), run_rx, ('patterns',), bounds='file of %d bytes' % sum(lines), lines=lines))
    cs.append(Case('patterns', run_should, ('any',), bounds='three patterns'))
    for ns, kinds in (((1, 3), ('dir', 'file')), ((2, 2), ('dir', 'dir')), ((3, 1, 3), ('dir', 'dir', 'file')), ((0, 2), ('dir', 'dir')),
                      ((2, 1, 3), ('file', 'dir', 'file'))) + ((((1, 3, 3, 3), ('dir',) * 4),) if big else ()):
        cs.append(Case('roots %s %s' % (ns, kinds), run_reduce, ('done', 'reduced'), bounds='requested paths of %s bytes' % (ns,), ns=ns, kinds=kinds))
    return cs
