META = {
 'level': 'model_checking',
 'assumptions': [
  'chunks are nonempty, as the splitter produces them (C02), up to 6 chunks of 1 to 3 bytes with arbitrary content and levels up '
  'to 2; the tree width limit is lowered to 2 or 3 so that it is reached',
  'object ids are opaque and every stored object is found again; a stored object arrives in one or two pieces',
  'offsets of large files: chunk sizes up to 2**40, up to 3 chunks per tree',
 ],
}
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies, ite
from bup import hashsplit, vfs, git
from stat import S_ISDIR

class Store:
    """objects by opaque id; also what `repo.cat` needs"""
    def __init__(self): self.objs = []
    def put(self, kind, data):
        self.objs.append((kind, data))
        return b'o' * 16 + b'%04d' % (len(self.objs) - 1)
    def blob(self, data): return self.put(b'blob', data)
    def tree(self, shalist):
        self.trees = getattr(self, 'trees', [])
        self.trees.append(list(shalist))
        return self.put(b'tree', git.tree_encode(shalist))
    def cat(self, ref):
        oid = bytes.fromhex(ref.decode('ascii'))
        assert oid[:16] == b'o' * 16
        kind, data = self.objs[int(oid[16:])]
        n = len(data)
        return ref, kind, n, iter([data] if n < 2 or kind == b'tree' else [data[:1], data[1:]])

def quiet():
    patch(vfs, 'debug2', lambda *a: None)

def check_trees(ctx, st, root, total):
    """names give exact offsets, in order; returns the size"""
    kind, data = st.objs[int(root[16:])]
    if kind == b'blob': return len(data)
    ofs = 0
    ents = git.tree_entries(data)
    for mode, name, oid in ents:
        ctx.check(int(name, 16) == ofs, 'a name is the offset of its chunk')
        ctx.check(len(name) == len(ents[0][1]), 'names have one width')
        k = st.objs[int(oid[16:])][0]
        ctx.check(S_ISDIR(mode) == (k == b'tree'), 'a mode says what the chunk is')
        ofs += check_trees(ctx, st, oid, total)
    return ofs

def build(ctx, sizes, width, nlev):
    quiet()
    patch(hashsplit, 'MAX_PER_TREE', width)
    st = Store()
    chunks = [ctx.bytes('c%d' % i, n) for i, n in enumerate(sizes)]
    levels = [ctx.choose('l%d' % i, nlev) for i in range(len(sizes))]
    mode, oid = hashsplit.split_to_blob_or_tree(st.blob, st.tree, list(zip(chunks, levels)))
    data = b''.join(chunks)
    ctx.check((mode == 0o40000) == (st.objs[int(oid[16:])][0] == b'tree'), 'the mode says what is stored')
    ctx.check(mode in (0o40000, 0o100644), 'mode')
    return st, mode, oid, data

def run_layout(ctx, sizes, width, nlev):
    st, mode, oid, data = build(ctx, sizes, width, nlev)
    n = sum(sizes)
    ctx.check(check_trees(ctx, st, oid, n) == n, 'every byte is stored')
    with vfs.tree_data_reader(st, oid) as f:
        ctx.check(f.read() == data, 'the content read at once')
        ctx.check(f.read() == b'' and f.tell() == n, 'then the end')
    got = b''.join(vfs.join(st, oid.hex().encode('ascii')))
    ctx.check(got == data, 'the content joined')
    ctx.check(vfs.item_size(st, vfs.Item(meta=0o100644, oid=oid)) == n, 'the size')
    ctx.reach('tree' if mode == 0o40000 else 'blob')

LEVELS = {'flat': lambda i: 0, 'one': lambda i: i % 2, 'deep': lambda i: (0, 1, 0, 2, 1, 2)[i % 6], 'tall': lambda i: 2}

def run_reads(ctx, sizes, width, shape, ops):
    """ops: 'r' read some, 's' seek anywhere, 'a' read all"""
    quiet()
    patch(hashsplit, 'MAX_PER_TREE', width)
    st = Store()
    chunks = [ctx.bytes('c%d' % i, n) for i, n in enumerate(sizes)]
    mode, oid = hashsplit.split_to_blob_or_tree(st.blob, st.tree, [(c, LEVELS[shape](i)) for i, c in enumerate(chunks)])
    data, n = b''.join(chunks), sum(sizes)
    pos = 0
    with vfs.fopen(st, vfs.Item(meta=0o100644, oid=oid)) as f:
        for i, op in enumerate(ops):
            if op == 's':
                to = ctx.int('seek%d' % i, -1, n + 1)
                try: f.seek(to)
                except OSError:
                    ctx.check(or_(to < 0, to > n), 'only offsets outside the file are refused')
                else:
                    ctx.check(and_(to >= 0, to <= n), 'offsets outside the file are refused')
                    pos = int(to)
            else:
                k = int(ctx.int('count%d' % i, 0, n + 1)) if op == 'r' else -1
                got = f.read(k)
                want = data[pos:] if k == -1 else data[pos:pos + k]
                ctx.check(len(got) == len(want), 'how much is read')
                ctx.check(got == want, 'what is read')
                pos += len(want)
            ctx.check(f.tell() == pos, 'the position')
        ctx.check(f.read() == data[pos:], 'the rest')
    ctx.reach('read')

def run_names(ctx, n, bits):
    sizes = [ctx.int("s%d" % i, 1, 1 << bits) for i in range(n)]
    oids = [bytes([i]) * 20 for i in range(n)]
    ents = [(0o40000 if ctx.flag('d%d' % i) else 0o100644, oids[i], s) for i, s in enumerate(sizes)]
    shalist, total = hashsplit._make_shalist(ents)
    want = 0
    for s in sizes: want = want + s
    ctx.check(total == want, 'the total size')
    got = git.tree_entries(git.tree_encode(shalist))
    ctx.check(len(got) == n, 'every chunk is listed')
    ofs = 0
    for i, (mode, name, oid) in enumerate(got):
        ctx.check(oid == oids[i] and mode == ents[i][0], 'chunks are in file order')
        ctx.check(int(name, 16) == ofs, 'names are offsets')
        ofs = ofs + sizes[i]
    ctx.reach('names')

def run_skip(ctx, widths):
    """reading starts at the chunk that has the offset"""
    n = len(widths)
    names = [b'0' * widths[0]] + [ctx.bytes('n%d' % i, w, alphabet=b'0123456789abcdef') for i, w in enumerate(widths)][1:]
    ofs = [int(x, 16) for x in names]
    for a, b in zip(ofs, ofs[1:]): ctx.assume(a < b)
    data = b''.join([b'100644 %s\0' % x + bytes([i]) * 20 for i, x in enumerate(names)])
    at = ctx.int("at", 0, 1 << 44)
    got = list(vfs._skip_chunks_before_offset(data, at))
    ctx.check(len(got) > 0, 'a chunk remains')
    first = n - len(got)
    ctx.check(got[0][2] == bytes([first]) * 20, 'a suffix of the chunks')
    ctx.check(ofs[first] <= at, 'nothing needed is skipped')
    if first + 1 < n: ctx.check(at < ofs[first + 1], 'everything before is skipped')
    ctx.reach('skip')

def run_size(ctx, sizes, bits):
    """size of a chunk tree with large offsets: last offset plus the size of the last chunk"""
    quiet()
    st = Store()
    sz = [ctx.int("s%d" % i, 1, 1 << bits) for i in sizes]
    last = [st.blob(ctx.bytes('b%d' % i, s)) for i, s in enumerate(sizes)]
    inner = st.tree(hashsplit._make_shalist([(0o100644, b'x' * 20, sz[0]), (0o100644, last[0], sizes[0])])[0])
    outer = st.tree(hashsplit._make_shalist([(0o100644, b'x' * 20, sz[-1]), (0o40000, inner, sz[0] + sizes[0])])[0])
    ctx.check(vfs.item_size(st, vfs.Item(meta=0o100644, oid=outer)) == sz[-1] + sz[0] + sizes[0], 'the size')
    ctx.reach('size')

def cases(tier):
    deep = tier == 'thorough'
    out = []
    for sizes, width in (((), 3), ((1,), 2), ((3,), 3), ((1, 2), 2), ((2, 1, 1), 2), ((1, 1, 2, 1), 3)) + \
                        ((((1,) * 5, 2), ((1, 2, 1, 3, 1), 3), ((9,) * 2 + (1,), 2)) if not deep else (((1,) * 5, 2), ((1, 2, 1, 3, 1), 3), ((1,) * 6, 2), ((2, 1, 1, 3, 1, 2), 3), ((17, 1, 2, 9, 8), 2))):
        out.append(Case('layout %s width %d' % (sizes, width), run_layout, ['tree' if len(sizes) > 1 else 'blob'], bounds='levels up to 2', sizes=sizes, width=width, nlev=3, weight=len(sizes)))
    for shape, sizes, width in (('flat', (2,), 3), ('flat', (1, 2, 1), 3), ('deep', (1, 2, 1, 1), 2), ('one', (2, 1, 2, 1), 3), ('tall', (1, 2), 2)) + ((('deep', (1, 2, 1, 3, 1, 2), 3), ('one', (2, 2, 1, 1, 2), 2), ('deep', (4, 3, 4), 2), ('flat', (1,) * 6, 2)) if deep else ()):
        for ops in (('sr', 'rr', 'rsr', 'ra') + (('srr', 'srsr', 'rrr') if deep else ())):
            out.append(Case('reads %s %s %d %s' % (shape, sizes, width, ops), run_reads, ['read'], bounds='arbitrary offsets and counts', weight=len(ops) * len(sizes), sizes=sizes, width=width, shape=shape, ops=ops))
    for n, bits in ((1, 40), (2, 40), (3, 12)) + (((3, 40), (4, 12)) if deep else ()):
        out.append(Case('names %d 2**%d' % (n, bits), run_names, ['names'], bounds='sizes to 2**%d' % bits, n=n, bits=bits))
    for w in ((1,), (2, 2), (3, 3, 3), (10, 10)) + (((10, 10, 10), (4, 4, 4, 4)) if deep else ()):
        out.append(Case('skip %s' % (w,), run_skip, ['skip'], bounds='offsets of that many hex digits', widths=w))
    for s, bits in ((1,), 40), ((3, 2), 40 if deep else 12): out.append(Case('size %s' % (s,), run_size, ['size'], bounds='sizes to 2**%d' % bits, sizes=s, bits=bits, weight=20))
    return out
