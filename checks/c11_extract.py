META = {
 'level': 'model_checking',
 'assumptions': [
  'the filesystem is a model of the extraction directory that starts out empty: names, kinds and symlinks made by the '
  'extraction, with path resolution as in POSIX; anything reached by an absolute path, ".." above the top or a symlink '
  'is outside, exists, and is a regular file or a directory; the destination has no symlinks of its own',
  'an entry that makes bup fail (an exception) is refused, and the following ones are not extracted',
  'archives of up to 3 entries with arbitrary path bytes (no NUL), kinds, and targets; ids and times fixed',
 ],
}
import errno, stat
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from bup import metadata
from bup.metadata import Metadata
import os

OUT = 'outside'

class FS:
    def __init__(self, ctx): self.ctx, self.nodes, self.ops, self.outdir = ctx, [], 0, None
    def get(self, key):
        if key == (): return 'd'
        for k, kind in self.nodes:
            if len(k) == len(key) and k == key: return kind
        return None
    def put(self, key, kind): self.nodes = [(k, v) for k, v in self.nodes if not (len(k) == len(key) and k == key)] + [(key, kind)]
    def drop(self, key): self.nodes = [(k, v) for k, v in self.nodes if not (len(k) == len(key) and k == key)]
    def resolve(self, path, follow):
        if not path: raise FileNotFoundError(errno.ENOENT, 'empty')
        if path.startswith(b'/'): return OUT
        comps = path.split(b'/')
        cur = ()
        for i, c in enumerate(comps):
            if cur != ():
                kind = self.get(cur)
                if kind == 'l': return OUT          # something more follows the link, or a slash
                if kind == 'f': raise NotADirectoryError(errno.ENOTDIR, 'not a directory')
                if kind is None and len([x for x in comps[i:] if x != b'']) > 0:
                    raise FileNotFoundError(errno.ENOENT, 'no parent')
            if c == b'' or c == b'.': continue
            if c == b'..':
                if cur == (): return OUT
                cur = cur[:-1]
                continue
            cur = cur + (c,)
        if follow and self.get(cur) == 'l': return OUT
        return cur
    def change(self, path, follow, what):
        """the target of a modifying call"""
        key = self.resolve(path, follow)
        self.ops += 1
        self.ctx.check(key != OUT, 'nothing outside the extraction directory is changed')
        if key == OUT: raise OSError(errno.EACCES, 'outside')
        return key
    # queries
    def lstat(self, path):
        key = self.resolve(path, False)
        kind = 'f' if key == OUT else self.get(key)
        if kind is None: raise FileNotFoundError(errno.ENOENT, 'missing')
        return SimpleNamespace(st_mode={'f': stat.S_IFREG, 'd': stat.S_IFDIR, 'l': stat.S_IFLNK}[kind] | 0o700)
    def isdir(self, path):
        try: key = self.resolve(path, True)
        except OSError: return False
        if key == OUT:
            if self.outdir is None: self.outdir = bool(self.ctx.choose('outdir', 2))
            return self.outdir
        return self.get(key) == 'd'
    def islink(self, path):
        try: return stat.S_ISLNK(self.lstat(path).st_mode)
        except OSError: return False
    # changes
    def create(self, path, kind):
        key = self.change(path, False, kind)
        if self.get(key) is not None: raise FileExistsError(errno.EEXIST, 'exists')
        if kind != 'd' and path.endswith(b'/'): raise NotADirectoryError(errno.ENOTDIR, 'trailing slash')
        self.put(key, kind)
    def mkdir(self, path, mode=0o777): self.create(path, 'd')
    def makedirs(self, path, mode=None):
        head, tail = os.path.split(path)
        if not tail: head, tail = os.path.split(head)
        if head and tail and self.missing(head):
            try: self.makedirs(head)
            except FileExistsError: pass
            if tail == b'.': return
        self.create(path, 'd')
    def missing(self, path):
        try: key = self.resolve(path, True)
        except OSError: return True
        return key != OUT and self.get(key) is None
    def mkdirp(self, path, mode=None):
        try: self.makedirs(path)
        except FileExistsError: pass
    def mknod(self, path, mode=0, dev=0): self.create(path, 'f')
    def mkfifo(self, path, mode): self.create(path, 'f')
    def open(self, path, flags, mode):
        assert flags & os.O_EXCL
        self.create(path, 'f')
        return 9
    def close(self, fd): pass
    def symlink(self, target, path): self.create(path, 'l')
    def rmdir(self, path):
        key = self.change(path, False, 'rmdir')
        if self.get(key) != 'd': raise NotADirectoryError(errno.ENOTDIR, 'rmdir')
        if key == (): raise OSError(errno.EINVAL, 'rmdir .')
        for k, v in self.nodes:
            if len(k) > len(key) and k[:len(key)] == key: raise OSError(errno.ENOTEMPTY, 'not empty')
        self.drop(key)
    def unlink(self, path):
        key = self.change(path, False, 'unlink')
        if self.get(key) is None: raise FileNotFoundError(errno.ENOENT, 'unlink')
        if self.get(key) == 'd': raise IsADirectoryError(errno.EISDIR, 'unlink')
        self.drop(key)
    def attr(self, follow):
        def f(path, *args):
            key = self.change(path, follow, 'attr')
            if self.get(key) is None: raise FileNotFoundError(errno.ENOENT, 'attr')
        return f
    def umask(self, m): return 0o22

def env(ctx):
    fs = FS(ctx)
    path = SimpleNamespace(isdir=fs.isdir, islink=fs.islink, dirname=os.path.dirname, lexists=lambda p: not fs.missing(p),
                           exists=lambda p: not fs.missing(p), join=os.path.join, normpath=os.path.normpath, basename=os.path.basename, split=os.path.split)
    fake = SimpleNamespace(path=path, mkdir=fs.mkdir, makedirs=fs.makedirs, mknod=fs.mknod, mkfifo=fs.mkfifo, open=fs.open, close=fs.close, symlink=fs.symlink, rmdir=fs.rmdir,
                           unlink=fs.unlink, remove=fs.unlink, umask=fs.umask, lchown=fs.attr(False), chown=fs.attr(True), chmod=fs.attr(True), lstat=fs.lstat,
                           O_CREAT=os.O_CREAT, O_WRONLY=os.O_WRONLY, O_EXCL=os.O_EXCL)
    patch(metadata, 'os', fake)
    patch(metadata, 'xstat', SimpleNamespace(lstat=fs.lstat))
    patch(metadata, 'mkdirp', fs.mkdirp)
    patch(metadata, 'utime', fs.attr(True)); patch(metadata, 'lutime', fs.attr(False))
    patch(metadata, 'apply_acl', fs.attr(True)); patch(metadata, 'set_linux_file_attr', fs.attr(True))
    class XA:
        list = staticmethod(lambda p, nofollow: ())
        get = staticmethod(lambda p, k, nofollow: b'')
        set = staticmethod(lambda p, k, v, nofollow: fs.attr(not nofollow)(p))
        remove = staticmethod(lambda p, k, nofollow: fs.attr(not nofollow)(p))
    patch(metadata, 'xattr', XA)
    patch(metadata, 'is_superuser', lambda: True)
    patch(metadata, 'pwd_from_name', lambda n: None); patch(metadata, 'grp_from_name', lambda n: None)
    patch(metadata, 'note_error', lambda m: None)
    patch(metadata, '_have_lchmod', False)
    return fs

KINDS = {'file': stat.S_IFREG | 0o644, 'dir': stat.S_IFDIR | 0o755, 'link': stat.S_IFLNK | 0o777, 'fifo': stat.S_IFIFO | 0o600,
         'device': stat.S_IFCHR | 0o600, 'socket': stat.S_IFSOCK | 0o600, 'strange': 0o110644}

def entry(path, kind, extras):
    m = Metadata(frozen=False)
    m.path, m.mode = path, KINDS[kind]
    m.uid = m.gid = 5; m.user = m.group = b'u'; m.rdev = 1; m.atime = m.mtime = m.ctime = 10 ** 18
    if kind == 'link': m.symlink_target = b'/somewhere'
    if extras:
        m.posix1e_acl = (b'a', b'b', b'c', b'd'); m.linux_attr = 16; m.linux_xattr = [(b'user.k', b'v')]
    return m.freeze()

def run_extract(ctx, plens, kinds, mode, extras, alphabet):
    fs = env(ctx)
    ents = []
    for i, (n, ks) in enumerate(zip(plens, kinds)):
        path = ctx.bytes('path%d' % i, n, alphabet=alphabet) if alphabet else ctx.bytes('path%d' % i, n, exclude=b'\0')
        ents.append(entry(path, ks[ctx.choose('kind%d' % i, len(ks))] if len(ks) > 1 else ks[0], extras))
    patch(metadata, '_ArchiveIterator', lambda f: iter(list(ents)))
    try:
        if mode == 'extract': metadata.extract(None)
        else:
            try: metadata.start_extract(None)
            except Exception as ex:
                if not isinstance(ex, OSError) and 'refusing' not in str(ex): raise
            metadata.finish_extract(None)
    except OSError as ex:
        ctx.reach('failed')
    except Exception as ex:
        if 'refusing' not in str(ex): raise
        ctx.reach('failed')
    ctx.reach('changes' if fs.ops else 'skipped')

def run_cleanup(ctx, n):
    """the cleaned up path stays below the top, and safe relative paths are kept"""
    p = ctx.bytes('p', n, exclude=b'\0')
    out = metadata._clean_up_extract_path(p)
    comps = p.split(b'/')
    up = or_(False, *[c == b'..' for c in comps])
    if out is None:
        ctx.check(up, 'only paths with parent references are refused')
        ctx.reach('refused')
    else:
        ctx.check(not_(up), 'a path with parent references is refused')
        ctx.check(not_(out.startswith(b'/')), 'the result is relative')
        if p.startswith(b'/'): ctx.check(out == (p.lstrip(b'/') or b'.'), 'leading slashes are dropped'); ctx.reach('absolute')
        else: ctx.check(out == p, 'a safe relative path is unchanged'); ctx.reach('relative')

def run_archive(ctx, n):
    """the path recorded for an archived file can be extracted below the destination"""
    p = ctx.bytes('p', n, exclude=b'\0')
    safe = metadata._clean_up_path_for_archive(p)
    ctx.check(not_(safe.startswith(b'/')), 'archived paths are relative')
    ctx.check(len(safe) > 0, 'archived paths are not empty')
    comps = safe.split(b'/')
    plain = and_(*[and_(c != b'..', c != b'') for c in p.split(b'/')])
    if plain:
        want = [c for c in p.split(b'/') if c != b'.']
        got = [c for c in comps if c != b'.']
        ctx.check(got == want, 'ordinary paths keep their components')
        ctx.reach('plain')
    elif and_(safe != b'..', not_(safe.startswith(b'../')), not_(safe.endswith(b'/..')), safe.find(b'/../') == -1):
        ctx.reach('cleaned')

def cases(tier):
    T = tier == 'thorough'
    r = []
    for n in range(1, 7 if T else 6):
        r.append(Case('cleanup %d' % n, run_cleanup, (('absolute',) if n < 2 else ('refused', 'absolute', 'relative')), bounds='every path of %d bytes' % n, n=n))
    for n in range(1, 8 if T else 6):
        r.append(Case('archive %d' % n, run_archive, ('plain',), bounds='every path of %d bytes' % n, n=n))
    ALL = list(KINDS)
    for mode in ('extract', 'start+finish'):
        for n in range(1, 6 if T else 5):
            r.append(Case('%s one entry %d' % (mode, n), run_extract, ('changes',), bounds='one entry, path of %d arbitrary bytes, any kind' % n,
                          plens=(n,), kinds=(ALL,), mode=mode, extras=True, alphabet=None))
        K = ['file', 'dir', 'link']
        two = [(1, 1), (1, 3), (2, 2), (3, 1), (2, 3)] + ([(2, 4)] if T or mode == 'extract' else []) + ([(1, 4), (3, 3)] if T else [])
        for pl in two:
            big = sum(pl) > 4
            r.append(Case('%s two entries %s' % (mode, pl), run_extract, ('changes',), bounds='two entries, paths of %s bytes %s' % (list(pl), 'over a b / .' if big else ''),
                          plens=pl, kinds=(K, K), mode=mode, extras=True, alphabet=b'ab/.' if big else None, weight=5))
        three = [((3, 3, 1), (['file'], ['strange'], ['link'])), ((3, 1, 3), (['dir', 'file'], ['link'], ['file', 'dir'])), ((1, 1, 3), (K, ['link'], ['file', 'dir']))]
        if T: three += [((3, 1, 3), (K, K, K)), ((1, 3, 3), (K, K, K)), ((2, 2, 3), (K, K, K))]
        for pl, ks in three:
            r.append(Case('%s three entries %s %s' % (mode, pl, len(ks[0]) * 100 + len(ks[1]) * 10 + len(ks[2])), run_extract, ('changes',), bounds='three entries, paths of %s bytes over a b / .' % list(pl),
                          plens=pl, kinds=ks, mode=mode, extras=False, alphabet=b'ab/.', weight=9))
    return r
