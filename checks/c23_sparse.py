META = {
 'level': 'model_checking',
 'cbmc': 'cbmc_c23',
 'assumptions': [
  'in the Python part the file is a byte store with the semantics of lseek, write and ftruncate, and write_sparsely may write '
  'any prefix of what is pending that ends in zeros (which is what the C part establishes for the real function)',
  'the data a read of the stored file returns is as C01 establishes; offsets stay below 2**62',
 ],
}
import os
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from bup.cmd import restore
from bup import helpers

class File:
    """a sparse file"""
    def __init__(self, old): self.d, self.pos, self.opened = old, 0, False
    def put(self, b):
        if self.pos > len(self.d): self.d = self.d + b'\0' * (self.pos - len(self.d))
        self.d = self.d[:self.pos] + b + self.d[self.pos + len(b):]
        self.pos += len(b)

class Src:
    def __init__(self, blocks): self.blocks = list(blocks)
    def read(self, n): return self.blocks.pop(0) if self.blocks else b''
    def __enter__(self): return self
    def __exit__(self, *a): pass

def run(ctx, ns, old, sparse):
    blocks = [ctx.bytes('b%d' % i, n) for i, n in enumerate(ns)]
    want = b''.join(blocks)
    f = File(b'old content'[:old])
    def opened(path, flags, mode=0o777):
        ctx.check(path == b'dest' and flags & os.O_TRUNC and flags & os.O_CREAT and flags & os.O_WRONLY, 'the file is created or emptied')
        ctx.check(not f.opened, 'once')
        f.opened, f.d, f.pos = True, b'', 0
        return 5
    def lseek(fd, n, w):
        assert fd == 5 and f.opened
        f.pos = {os.SEEK_SET: 0, os.SEEK_CUR: f.pos, os.SEEK_END: len(f.d)}[w] + n
        return f.pos
    def ftruncate(fd, n):
        assert fd == 5 and f.opened
        f.d = f.d[:n] if n <= len(f.d) else f.d + b'\0' * (n - len(f.d))
    def close(fd): f.opened = False
    calls = []
    def sparsely(fd, b, least, zeros):
        assert fd == 5 and f.opened
        ctx.check(least > 0, 'the hole threshold is positive')
        # the data up to some point is written, after which there are only zeros
        n = len(b)
        keep = ctx.choose('keep%d' % len(calls), n + 1); calls.append(n)
        tail = b[n - keep:]
        ctx.assume(and_(True, *[c == 0 for c in tail]))
        if keep == n: return zeros + n
        f.pos += zeros
        f.put(b[:n - keep])
        return keep
    patch(restore, 'write_sparsely', sparsely)
    patch(restore, 'os', SimpleNamespace(open=opened, lseek=lseek, ftruncate=ftruncate, close=close, O_WRONLY=os.O_WRONLY, O_CREAT=os.O_CREAT,
                                         O_TRUNC=os.O_TRUNC, SEEK_END=os.SEEK_END, SEEK_SET=os.SEEK_SET, SEEK_CUR=os.SEEK_CUR))
    class Out:
        def __init__(self, path, mode):
            ctx.check(path == b'dest' and mode == 'wb', 'the file is created or emptied')
            f.opened, f.d, f.pos = True, b'', 0
        def write(self, b): f.put(b)
        def __enter__(self): return self
        def __exit__(self, *a): f.opened = False
    patch(restore, 'open', Out)
    asked = []
    patch(restore.vfs, 'fopen', lambda repo, item: (asked.append((repo, item)), Src(blocks))[1])
    if sparse: restore.write_file_content_sparsely('repo', b'dest', 'item')
    else: restore.write_file_content('repo', b'dest', 'item')
    ctx.check(asked == [('repo', 'item')], 'the requested file is read')
    ctx.check(not f.opened, 'the file is closed')
    ctx.check(len(f.d) == len(want), 'the length is that of the data')
    ctx.check(f.d == want, 'the content is the data')
    ctx.reach('written')

def cases(tier):
    big = tier == 'thorough'
    out = []
    for ns in ((), (1,), (3,), (2, 2), (1, 1, 1), (1, 2, 1)) + (((3, 3), (2, 2, 2), (1, 1, 1, 1)) if big else ()):
        for old in (0, 9):
            out.append(Case('sparse %s over %d' % (ns, old), run, ('written',), bounds='blocks of %s bytes, over a file of %d' % (ns, old),
                            ns=ns, old=old, sparse=True))
        out.append(Case('plain %s' % (ns,), run, ('written',), bounds='blocks of %s bytes' % (ns,), ns=ns, old=9, sparse=False))
    return out
