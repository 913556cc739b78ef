META = {
 'level': 'model_checking',
 'assumptions': [
  'names are nonempty without NUL or slash, and neither "." nor ".."; up to 4 (5) entries, names of up to 3 arbitrary bytes, or '
  'a fixed part with an arbitrary one; every kind of entry; the metadata of each entry is recognizable',
  'where a directory is split by names, and where its metadata is split into chunks, are arbitrary choices standing for the hash functions',
  'object ids are opaque and every stored object is found again',
 ],
}
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies, ite
from bup import tree, vfs, git, hashsplit, metadata
from bup.metadata import Metadata, empty_metadata
import stat
from stat import S_ISDIR, S_ISLNK

class Store:
    """a repository: objects by opaque id"""
    def __init__(self): self.objs = []
    def put(self, kind, data):
        self.objs.append((kind, data))
        return b'o' * 16 + b'%04d' % (len(self.objs) - 1)
    def get(self, oid): return self.objs[int(oid[16:])]
    def write_data(self, data): return self.put(b'blob', data)
    write_bupm = write_data
    def write_tree(self, shalist): return self.put(b'tree', git.tree_encode(list(shalist)))
    def cat(self, ref):
        kind, data = self.get(bytes.fromhex(ref.decode('ascii')))
        return ref, kind, len(data), iter([data])

KIND = {'file': (0o100640, 0o100644), 'exec': (0o100750, 0o100755), 'chunked': (0o100640, 0o40000), 'dir': (0o40000, 0o40000), 'link': (0o120777, 0o120000),
        'fifo': (0o010600, 0o100644)}

def meta(i, mode):
    m = Metadata(frozen=False)
    m.mode, m.uid, m.gid, m.user, m.group, m.atime, m.mtime, m.ctime, m.size, m.rdev = mode, 1000 + i, i, b'u%d' % i, b'g', i, i, i, i, 0
    if S_ISLNK(mode): m.symlink_target, m.size = b't%d' % i, 2
    return m.freeze()

def name(ctx, i, spec):
    """spec: literal parts and numbers of arbitrary bytes"""
    out = b''
    for j, s in enumerate(spec if isinstance(spec, tuple) else (spec,)):
        out = out + (s if isinstance(s, bytes) else ctx.bytes('name%d_%d' % (i, j), s, exclude=b'\0/'))
    ctx.assume(and_(out != b'.', out != b'..'))
    return out

class Chooser:
    """stands for RecordHashSplitter"""
    def __init__(self, ctx): self.ctx, self.n = ctx, 0
    def __call__(self, bits): return self
    def feed(self, data):
        self.n += 1
        s = self.n <= 12 and self.ctx.flag('split%d' % self.n)
        return s, 13

def same_meta(ctx, got, want, what):
    ctx.check(isinstance(got, Metadata), what + ': is there')
    for f in 'mode', 'uid', 'gid', 'user', 'group', 'mtime', 'symlink_target': ctx.check(getattr(got, f) == getattr(want, f), '%s: %s' % (what, f))

def run(ctx, names, kinds, dirmeta, without, chunk, split, ordered, subset, dup):
    """without: entries that have no metadata"""
    names = [name(ctx, i, s) for i, s in enumerate(names)]
    n = len(names)
    for i in range(n):
        for j in range(i):
            if dup and (j, i) == (0, 1): ctx.assume(names[0] == names[1])
            elif ordered and not dup:
                if j == i - 1: ctx.assume(names[j] < names[i])
            else: ctx.assume(names[j] != names[i])
    errors = []
    patch(tree, 'add_error', errors.append)
    patch(vfs, 'debug2', lambda *a: None)
    patch(tree, 'RecordHashSplitter', Chooser(ctx))
    cut = []
    def from_config(files, config):
        data = files[0].read()
        k = len(data) // 2 if chunk else len(data)
        cut.append(k)
        return [(data[:k], 0), (data[k:], 0)] if chunk else [(data, 0)]
    patch(hashsplit, 'from_config', from_config)
    vfs.clear_cache()
    st = Store()
    stack = tree.Stack(st, {'trees': split})
    stack.push(b'root', meta(90, 0o40700))
    stack.push(b'd', meta(91, 0o40701) if dirmeta else None)
    oids, metas = [], []
    for i, k in enumerate(kinds):
        mode, gitmode = KIND[k]
        if S_ISDIR(mode) or k == 'chunked':
            oid = st.write_tree([(0o100644, b'0', st.write_data(b'%d' % i))])
        else: oid = st.write_data(b't%d' % i if k == 'link' else b'%d' % i)
        m = None if S_ISDIR(mode) or i in without else meta(i, mode)
        stack.append_to_current(names[i], mode, gitmode, oid, m)
        oids.append(oid)
        metas.append(m)
    d = stack.pop()
    root = stack.pop()
    ctx.check(len(errors) == (1 if dup else 0), 'an error for each duplicate, and no other')
    real = [i for i in range(n) if not (dup and i == 1)]
    for kind, data in st.objs:
        if kind == b'tree' and not dup:
            ents = git.tree_entries(data)
            for a, b in zip(ents, ents[1:]): ctx.check(git.shalist_item_sort_key(a) < git.shalist_item_sort_key(b), 'stored trees are in order without duplicates')
    if split: layout(ctx, st, d, [names[i] for i in real])
    item = vfs.Item(meta=vfs.default_dir_mode, oid=d)
    some_meta = dirmeta or any(metas[i] for i in real)
    if subset is None: want = None
    else: want = set(names[i] for i in subset) | {b'\x01\x01\x01\x01'}
    for want_meta in (True, False):
        got = list(vfs.contents(st, item, names=want, want_meta=want_meta))
        if subset is None:
            ctx.check(got[0][0] == b'.' and got[0][1].oid == d, 'the directory itself comes first')
            if want_meta and dirmeta: same_meta(ctx, got[0][1].meta, meta(91, 0o40701), 'directory metadata')
            else: ctx.check(isinstance(got[0][1].meta, int) and S_ISDIR(got[0][1].meta), 'a directory mode')
            got = got[1:]
        sel = real if subset is None else [i for i in real if i in subset]
        ctx.check(len(got) == len(sel), 'exactly the names saved (and requested)')
        left = list(sel)
        for nm, it in got:
            i = None
            for j in left:
                if nm == names[j]: i = j; break
            ctx.check(i is not None, 'each name once')
            left.remove(i)
            ctx.check(it.oid == oids[i], 'its own object')
            ctx.check(isinstance(it, vfs.Chunky if kinds[i] == 'chunked' else vfs.Item), 'kind')
            mode = vfs.item_mode(it)
            if metas[i] is not None and want_meta: same_meta(ctx, it.meta, metas[i], 'metadata')
            else:
                ctx.check(isinstance(it.meta, int), 'only a mode')
                ctx.check(stat.S_IFMT(mode) == stat.S_IFMT(0o100000 if kinds[i] in ('fifo', 'chunked') else KIND[kinds[i]][0]), 'kind of mode')
                if metas[i] is None and kinds[i] != 'dir' and some_meta and want_meta and not split: ctx.check(mode & 0o77 == 0, 'lost metadata is restrictive')
            if kinds[i] == 'link': ctx.check(vfs.readlink(st, it) == b't%d' % i, 'link target')
    up = dict(vfs.contents(st, vfs.Item(meta=vfs.default_dir_mode, oid=root)))
    ctx.check(up[b'd'].oid == d, 'the directory in its parent')
    same_meta(ctx, up[b'.'].meta, meta(90, 0o40700), 'parent metadata')
    dm = vfs._find_treeish_oid_metadata(st, d)
    if dirmeta: same_meta(ctx, dm, meta(91, 0o40701), 'metadata found for the directory')
    ctx.reach('listed')

def layout(ctx, st, oid, names):
    """Split trees: names at each level are prefixes that separate the names of the subtrees."""
    def walk(oid):
        ents = [e for e in git.tree_entries(st.get(oid)[1])]
        subs = [e for e in ents if e[1].endswith(b'.bupd')]
        if not subs: return
        prefixes = [e[1][:-len(b'..1.bupd')] for e in subs]
        for (m, nm, sub), p in zip(subs, prefixes):
            for leaf in leaves(sub):
                ctx.check(leaf >= p, 'a subtree holds names from its own name on')
                for q in prefixes: ctx.check(implies(q > p, leaf < q), 'and below the name of the next one')
            walk(sub)
    def leaves(oid):
        out = []
        for m, nm, sub in git.tree_entries(st.get(oid)[1]):
            if nm.endswith(b'.bupd'): out += leaves(sub)
            elif nm != b'.bupm': out.append(git.demangle_name(nm, m)[0])
        return out
    walk(oid)

def run_abbrev(ctx, lens):
    """Abbreviated names of consecutive groups stay apart and in order."""
    groups = [(name(ctx, 2 * i, a), name(ctx, 2 * i + 1, b)) for i, (a, b) in enumerate(lens)]
    flat = [x for g in groups for x in g]
    for a, b in zip(flat, flat[1:]): ctx.assume(a < b)
    items = [tree.SplitTreeItem(a, b'o' * 20, a, b) for a, b in groups]
    tree._abbreviate_item_names(items, 1)
    short = [it.name for it in items]
    for (a, b), s, nx in zip(groups, short, short[1:] + [None]):
        ctx.check(s.endswith(b'..1.bupd'), 'level marker')
        s = s[:-8]
        ctx.check(and_(len(s) > 0, s != b'.', s != b'..'), 'valid names')
        ctx.check(a.startswith(s), 'abbreviations')
        if nx is not None: ctx.check(b < nx[:-8], 'names below the next one')
    ctx.reach('abbreviated')

def cases(tier):
    deep = tier == 'thorough'
    out = []
    def add(n, names, kinds, dirmeta=True, without=(), chunk=False, split=False, ordered=False, subset=None, dup=False, weight=None):
        out.append(Case(n, run, ['listed'], bounds='arbitrary names', names=names, kinds=kinds, dirmeta=dirmeta, without=without, chunk=chunk, split=split, ordered=ordered,
                        subset=subset, dup=dup, weight=weight or len(names) ** 2, witnesses=4))
    add('empty', (), ())
    add('empty, no metadata', (), (), dirmeta=False)
    for k in KIND: add('one ' + k, (2,), (k,))
    K = list(KIND)
    for a in K:
        for b in K:
            if deep or (a, b) in (('file', 'dir'), ('chunked', 'file'), ('dir', 'chunked'), ('link', 'fifo'), ('dir', 'link'), ('exec', 'chunked')):
                add('%s and %s' % (a, b), (1, 2), (a, b))
                if deep or a == 'chunked': add('%s and %s, one prefix' % (a, b), (b'a', (b'a', 2)), (a, b))
                if deep or a == 'dir': add('%s and %s, .bup names' % (a, b), ((b'x.bup', 1), (1, b'.bup')), (a, b))
    add('three', (1, 2, 1), ('file', 'chunked', 'dir'))
    add('three prefixed', (b'a', (b'a', 1), (b'a', 2)), ('chunked', 'link', 'file'))
    for sub in ((0,), (1,), (0, 1), (0, 2)):
        for dm, wo in ((True, ()), (False, (0, 1, 2))):
            add('part %s of three, metadata %d' % (sub, dm), (b'a', (b'a', 1), (b'a', 2)), ('dir', 'link', 'file'), dirmeta=dm, without=wo, subset=sub)
            add('part %s of three, chunked, metadata %d' % (sub, dm), (b'a', (b'a', 1), (b'a', 2)), ('chunked', 'chunked', 'dir'), dirmeta=dm, without=wo, subset=sub)
    add('some without', (1, 2, 1), ('file', 'link', 'chunked'), without=(1,))
    add('directory without', (1, 2), ('file', 'link'), dirmeta=False)
    add('none', (1, 2, 2), ('file', 'link', 'chunked'), dirmeta=False, without=(0, 1, 2))
    for k in ('file', 'dir', 'chunked'):
        add('chunked metadata, ' + k, ((b'.bup', 1, 1), 1), (k, 'link'), chunk=True)
        add('metadata name, ' + k, ((b'.bup', 1), (1, b'.bupm')), (k, 'file'), chunk=True)
        add('split, metadata name, ' + k, (b'-', (b'.bup', 2), b'z'), (k, 'file', 'link'), chunk=True, split=True)
    add('duplicates', (1, 1, 1), ('file', 'chunked', 'link'), dup=True)
    add('split two', (1, 2), ('file', 'dir'), split=True, ordered=True)
    add('split three', (1, 1, 2), ('chunked', 'file', 'link'), split=True, ordered=True)
    add('split four', (b'a', (b'a', 1), (b'a', 2), (b'a', 2)), ('dir', 'file', 'chunked', 'link'), split=True, ordered=True, weight=60)
    add('split five', (b'a', b'ab', b'abc', (b'abc', 1), b'b'), ('dir', 'file', 'chunked', 'link', 'file'), split=True, ordered=True, weight=60)
    add('split three, no metadata', (1, 1, 2), ('chunked', 'file', 'dir'), split=True, dirmeta=False, without=(0, 1, 2), ordered=True)
    add('split, part', (1, 1, 2), ('chunked', 'file', 'link'), split=True, ordered=True, subset=(0, 2))
    add('split, part without metadata', (b'a', (b'a', 1), (b'a', 2)), ('chunked', 'dir', 'link'), split=True, subset=(0, 1), dirmeta=False, without=(0, 1, 2))
    if deep:
        add('split six', (b'a', b'aa', (b'aa', 1), b'b', b'ba', (b'ba', 1)), ('dir', 'file', 'chunked', 'link', 'file', 'dir'), split=True, ordered=True, weight=90)
        add('four', (1, 2, 1, 2), ('file', 'chunked', 'dir', 'link'), weight=90)
        add('three long', ((b'.bup', 2), (b'.bup', 2), 2), ('file', 'chunked', 'dir'), chunk=True, weight=90)
    for lens in (((1, 1), (1, 1)), ((1, 2), (3, 3)), ((1, 2), (2, 3), (3, 3)), ((2, 2), (2, 2), (2, 2))) + ((((1, 2), (3, 3), (3, 3), (3, 3)), ((2, 3), (3, 4), (4, 4))) if deep else ()):
        out.append(Case('abbreviations %s' % (lens,), run_abbrev, ['abbreviated'], bounds='names of these lengths', lens=lens, weight=12))
    return out
