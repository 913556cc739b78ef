META = {
 'level': 'model_checking',
 'assumptions': [
  'pickle.dump/load and atomically_replaced_file are replaced by an in-memory copy of the table (their own '
  'guarantees: the Python library, and C21)',
  'add_path is given a path that is not recorded, or is recorded for the same inode (its documented assumption); '
  'changes of inode go through change_path, or del_path then add_path, as bup index does',
 ],
}
import copy
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from bup import hlinkdb

class Store:
    """One file holding a pickled table."""
    def __init__(self, content=None):
        self.content = content
        self.pending = None

def stub(ctx, store):
    class File:
        def __enter__(self): return self
        def __exit__(self, t, v, tb): return None
        def flush(self): pass
        def fileno(self): return 3
        def seek(self, *a): pass
    class Atomic:
        """like atomically_replaced_file: the file appears when the (outer) context is left"""
        def __init__(self, path, mode='wb', buffering=-1):
            self.cancelled = False
        def __enter__(self):
            store.pending = None
            return File()
        def __exit__(self, t, v, tb):
            if not self.cancelled and t is None and store.pending is not None:
                store.content = store.pending
            return False
        def cancel(self):
            self.cancelled = True
    class Pickle:
        @staticmethod
        def dump(obj, f, proto):
            store.pending = [(k, list(v)) for k, v in obj.items()]
    patch(hlinkdb, 'pickle', Pickle)
    def load(name):
        return None if store.content is None else dict([(k, list(v)) for k, v in store.content])
    patch(hlinkdb, 'pickle_load', load)
    patch(hlinkdb, 'atomically_replaced_file', Atomic)
    patch(hlinkdb, 'fsync', lambda fd: None)
    def unlink(p): store.content = None
    patch(hlinkdb, 'unlink', unlink)

def same_node(a, b): return and_(a[0] == b[0], a[1] == b[1])

class Model:
    """The recorded links: a plain list of (path, (dev, ino))."""
    def __init__(self): self.recs = []
    def find(self, path):
        for p, n in self.recs:
            if p == path: return n
        return None
    def drop(self, path): self.recs = [(p, n) for p, n in self.recs if not p == path]
    def add(self, path, node):
        self.drop(path)
        self.recs.append((path, node))

def compare(ctx, db, model, node):
    want = [p for p, n in model.recs if same_node(n, node)]
    try: got = db.node_paths(node[0], node[1])
    except KeyError: got = []
    ctx.check(len(got) == len(want), 'an inode has exactly the recorded number of paths')
    for p in want:
        ctx.check(or_(False, *[p == g for g in got]), 'every recorded path is listed')
    for g in got:
        ctx.check(or_(False, *[p == g for p in want]), 'no other path is listed')
    ctx.reach('some' if want else 'none')

def getnode(ctx, i, dev, ino):
    return ctx.int('dev%d' % i, *dev, math=True), ctx.int('ino%d' % i, *ino, math=True)

def c_ops(ctx, ops, dev, ino, saveat):
    store = Store()
    stub(ctx, store)
    db = hlinkdb.HLinkDB(b'f')
    model = Model()
    for i, op in enumerate(ops):
        path = ctx.bytes('path%d' % i, 1)
        if op == 'a':       # a path that isn't recorded
            node = getnode(ctx, i, dev, ino)
            ctx.assume(model.find(path) is None)
            db.add_path(path, *node)
            model.add(path, node)
        elif op == 'r':     # recorded again, unchanged
            node = model.find(path)
            ctx.assume(node is not None)
            db.add_path(path, *node)
        elif op == 'c':
            node = getnode(ctx, i, dev, ino)
            db.change_path(path, *node)
            model.add(path, node)
        elif op == 'm':     # what bup index does for a changed path
            node = getnode(ctx, i, dev, ino)
            db.del_path(path)
            db.add_path(path, *node)
            model.add(path, node)
        elif op == 'd':
            db.del_path(path)
            model.drop(path)
        if i in saveat:
            db.prepare_save()
            db.commit_save()
            db = hlinkdb.HLinkDB(b'f')
    q = getnode(ctx, 99, dev, ino)
    compare(ctx, db, model, q)
    db.prepare_save()
    db.commit_save()
    db = hlinkdb.HLinkDB(b'f')
    compare(ctx, db, model, q)
    # a save that's abandoned changes nothing
    extra = ctx.bytes('extra', 1)
    db.del_path(extra)
    db.prepare_save()
    db.abort_save()
    db = hlinkdb.HLinkDB(b'f')
    compare(ctx, db, model, q)
    db.closed = True

def cases(tier):
    q = tier == 'quick'
    seqs = ['', 'a', 'c', 'm', 'd', 'aa', 'ac', 'ad', 'am', 'ar', 'cc', 'aad', 'aac', 'aar', 'aam', 'ccd', 'adm', 'adc', 'mmd', 'aaa']
    seqs += ['aadd', 'aadr', 'aacd', 'accd', 'aama', 'mdcm'] if q else \
            [''.join(x) for x in __import__('itertools').product('acmdr', repeat=4) if x[0] in 'acm']
    out = []
    for s in seqs:
        for saveat in ((), (len(s) - 2,)) if len(s) > 1 else ((),):
            out.append(Case('%s %s' % (s or '-', 'reload' if saveat else ''), c_ops, (), ops=s, dev=(0, 9), ino=(0, 9), saveat=saveat, weight=3 ** len(s),
                            bounds='operations %s (a=add r=re-add c=change m=delete+add d=delete) on any 1-byte paths, any 1-digit device and inode' % s))
    for s in ('a', 'aa', 'ac', 'ad'):
        out.append(Case('%s wide' % s, c_ops, (), ops=s, dev=(0, 120), ino=(0, 120), saveat=(), weight=30,
                        bounds='devices and inodes of 1 to 3 digits'))
    return out
