META = {
 'level': 'model_checking',
 'assumptions': [
  'par2 and git are stand-ins whose exit statuses (and deaths by signal) are arbitrary: git verify-pack succeeds exactly when pack and '
  'index are intact, git index-pack succeeds only for an intact pack and then leaves an intact index, a successful par2 repair restores '
  'what was recorded (which may itself have been damaged), a successful par2 create leaves its two files',
  'a file is intact when its trailing checksum equals the SHA-1 of what precedes it; SHA-1 is modelled as an injective function',
  'parallel jobs are for different packs; each runs to its end, is killed before it does anything, or is killed at its end, and they '
  'are collected in any order',
 ],
}
import errno, fnmatch, os
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from bup import git, helpers, options
from bup.cmd import fsck

PAD = b's' * 18
DIR = b'/r/objects/pack'

class Sha:
    def __init__(self): self.b = b''
    def update(self, b): self.b = self.b + b
    def digest(self): return self.b + PAD

class File:
    def __init__(self, data): self.data, self.pos = data, 0
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
    def fileno(self): return self
    def tell(self): return self.pos
    def seek(self, off, whence=0):
        p = off + (0, self.pos, len(self.data))[whence]
        if p < 0: raise OSError(errno.EINVAL, 'Invalid argument')
        self.pos = p
    def read(self, n=None):
        if n is None or n < 0: n = len(self.data)
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

class TempDir:
    def __init__(self, w, path): self.w, self.path = w, path
    def __enter__(self): return self.path
    def __exit__(self, *a):
        for p in list(self.w.files):
            if p.startswith(self.path + b'/'): del self.w.files[p]

class OS:
    """the filesystem and the processes"""
    PURE = ('path', 'WIFEXITED', 'WEXITSTATUS', 'WIFSIGNALED', 'WTERMSIG', 'waitstatus_to_exitcode', 'fsencode', 'fsdecode', 'SEEK_SET',
            'SEEK_CUR', 'SEEK_END', 'sep', 'strerror', 'getpid')
    def __init__(self, w):
        self.w = w
        self.path = SimpleNamespace(**{n: getattr(os.path, n) for n in ('basename', 'dirname', 'join', 'split', 'splitext')},
                                    exists=lambda p: w.norm(p) in w.files)
    def __getattr__(self, n):
        if n in OS.PURE: return getattr(os, n)
        raise AttributeError(n)
    def stat(self, p): return SimpleNamespace(st_size=len(self.w.get(p)))
    lstat = stat
    def fstat(self, f): return SimpleNamespace(st_size=len(f.data))
    def unlink(self, p):
        self.w.get(p)
        del self.w.files[self.w.norm(p)]
    remove = unlink
    def rename(self, a, b):
        self.w.files[self.w.norm(b)] = self.w.get(a)
        del self.w.files[self.w.norm(a)]
    replace = rename
    def link(self, a, b):
        k = self.w.link
        if k: raise OSError((errno.EXDEV, errno.EIO)[k - 1], 'link')
        self.w.files[self.w.norm(b)] = self.w.get(a)
    def listdir(self, d):
        return [p[len(d) + 1:] for p in self.w.files if p.startswith(d + b'/') and b'/' not in p[len(d) + 1:]]
    def fork(self): return self.w.fork()
    def wait(self): return self.w.wait()

class World:
    def __init__(self, ctx, argv, n, mode, quick=False, idx=('ok',), sizes=(22,), p2=('both', 'none', 'novol', 'noidx', 'empty'), kill=False, setup=0,
                 link=0, extra=0):
        self.ctx, self.argv, self.n, self.mode, self.setup, self.link, self.extra = ctx, argv, n, mode, setup, link, extra
        self.files, self.tmp, self.created = {}, 0, []
        self.kill, self.forks, self.child, self.waits, self.replay = kill, [], None, [], None
        self.nfork = 0
        self.stems = [DIR + b'/pack-%040x' % i for i in range(n)]
        self.p2, self.intact0 = [], []
        for i, stem in enumerate(self.stems):
            size = sizes[ctx.choose('psize%d' % i, len(sizes))]
            self.files[stem + b'.pack'] = self.blob('pack%d' % i)[:size]
            ik = idx[ctx.choose('idx%d' % i, len(idx))]
            if ik == 'sym': self.files[stem + b'.idx'] = self.blob('idat%d' % i)
            elif ik == 'ok': self.files[stem + b'.idx'] = b'ii' + b'ii' + PAD
            elif ik == 'short': self.files[stem + b'.idx'] = b'ii'
            elif ik == 'empty': self.files[stem + b'.idx'] = b''
            self.p2.append(p2[ctx.choose('p2_%d' % i, len(p2))])
            k = self.p2[-1]
            if k in ('both', 'novol', 'empty'): self.files[stem + b'.par2'] = b'p' if k != 'empty' else b''
            if k in ('both', 'noidx', 'empty'): self.files[stem + b'.vol000+200.par2'] = b'v'
        self.verify_rc = [ctx.int('vrc%d' % i, -15, 8) for i in range(n)]
        self.repair_rc = [ctx.int('rrc%d' % i, -15, 8) for i in range(n)]
        self.create_rc = [ctx.int('crc%d' % i, -15, 8) for i in range(n)]
        self.recorded = [self.blob('rec%d' % i) if mode == 'repair' else None for i in range(n)]
        self.initial = dict(self.files)
        self.good0 = [self.good(i) for i in range(n)]

    def blob(self, name):
        return self.ctx.bytes(name, 2) + self.ctx.bytes(name + 't', 2) + PAD
    def norm(self, p):
        parts = []
        for x in p.split(b'/'):
            if x == b'..': parts.pop()
            else: parts.append(x)
        return b'/'.join(parts)
    def get(self, p):
        p = self.norm(p)
        if p not in self.files: raise FileNotFoundError(errno.ENOENT, 'none', p)
        return self.files[p]
    def intact(self, p):
        d = self.files.get(p)
        if d is None or len(d) < 20: return False
        return d[-20:] == d[:-20] + PAD
    def good(self, i):
        return and_(self.intact(self.stems[i] + b'.pack'), self.intact(self.stems[i] + b'.idx'))
    def complete(self, i):
        return all(len(self.files.get(self.stems[i] + s, b'')) > 0 for s in (b'.par2', b'.vol000+200.par2'))
    def some(self, i):
        return any((self.stems[i] + s) in self.files for s in (b'.par2', b'.vol000+200.par2'))

    # -- programs
    def which(self, arg):
        b = arg.split(b'/')[-1]
        for i, s in enumerate(self.stems):
            if b.split(b'.')[0] == s.split(b'/')[-1]: return i
        raise AssertionError(arg)
    def run(self, cmd, *, cwd=None, **kw):
        rc = self.command([bytes(c) for c in cmd], cwd)
        return SimpleNamespace(returncode=rc, stdout=b'', stderr=b'')
    def command(self, cmd, cwd):
        ctx = self.ctx
        if cmd[:2] == [b'par2', b'--help']:
            if self.setup == 1: return 3
            if self.setup == 2: raise FileNotFoundError(errno.ENOENT, 'par2')
            return 0
        i = self.which(cmd[-1])
        stem = self.stems[i]
        if cmd[:2] == [b'git', b'verify-pack']:
            ctx.check(cmd[-1] == stem, 'the pack is verified')
            return 0 if self.good(i) else 1
        if cmd[:2] == [b'git', b'index-pack']:
            ctx.check(cmd[-1] == stem + b'.pack', 'the pack is indexed')
            if ctx.flag('indexfail%d' % i) or not self.intact(stem + b'.pack'): return 128
            self.files[stem + b'.idx'] = b'ii' + b'ii' + PAD
            return 0
        assert cmd[0] == b'par2', cmd
        if cmd[1] == b'verify': return self.verify_rc[i]
        if cmd[1] == b'repair':
            rc = self.repair_rc[i]
            if rc == 0: self.files[stem + b'.pack'] = self.recorded[i]
            return rc
        assert cmd[1] == b'create', cmd
        base = cmd[-2]
        rc = self.create_rc[i]
        self.get(cwd + b'/' + cmd[-1])
        if rc == 0 or self.ctx.flag('partial%d' % i):
            self.files[cwd + b'/' + base + b'.par2'] = b'' if rc != 0 or self.ctx.flag('blank%d' % i) else b'p'
            if rc == 0:
                self.files[cwd + b'/' + base + b'.vol000+200.par2'] = b'v'
                if self.extra: self.files[cwd + b'/' + base + b'.vol001+200.par2'] = b'v'
        return rc

    # -- processes: a child is run by running main() again up to its fork
    def fork(self):
        k = self.nfork
        self.nfork += 1
        if self.child is not None:
            return 0 if k == self.child else 100 + k
        saved = self.nfork
        how = self.ctx.choose('kill%d' % k, 3) if self.kill else 0
        status = 9
        if how != 1:
            # (until its fork it sees what its parent saw, and then it only changes files of its own pack)
            self.child, self.nfork, self.replay = k, 0, list(self.waits)
            files, self.files = self.files, dict(self.initial)
            status = self.main()
            self.child, self.nfork = None, saved
            new, self.files = self.files, files
            changed = [p for p in {**new, **self.initial} if new.get(p) is not self.initial.get(p)]
            self.ctx.check(len(set(self.which(p) for p in changed)) <= 1, 'a job only changes the files of one pack')
            for p in changed:
                if p in new: files[p] = new[p]
                else: files.pop(p, None)
            self.ctx.check(isinstance(status, int), 'a job exits with a number')
            status = status << 8
            if how == 2: status = 9
        self.forks.append((100 + k, status))
        self.ctx.check(len(self.forks) <= self.jobs, 'no more jobs than requested')
        return 100 + k
    def wait(self):
        if self.child is not None:
            return self.replay.pop(0)
        if not self.forks: raise ChildProcessError(errno.ECHILD, 'none')
        j = self.ctx.choose('w%d' % len(self.waits), len(self.forks))
        r = self.forks.pop(j)
        self.waits.append(r)
        return r

    def main(self):
        try:
            fsck.main(self.argv)
        except SystemExit as ex:
            return 0 if ex.code is None else ex.code
        return 0

    def install(self):
        patch(fsck, 'os', OS(self))
        patch(fsck, 'run', self.run)
        patch(fsck, 'open', lambda p, m='r': File(self.get(p)))
        patch(fsck, 'Sha1', Sha)
        patch(fsck, '_par2_parallel', True)
        patch(fsck, 'par2_ok', 0)
        patch(fsck, 'opt', None)
        patch(fsck, 'byte_stream', lambda f: SimpleNamespace(write=lambda b: None, flush=lambda: None))
        patch(fsck, 'log', lambda *a: None)
        patch(fsck, 'progress', lambda *a: None)
        patch(fsck, 'istty2', False)
        patch(fsck, 'copy2', lambda a, b: self.files.__setitem__(self.norm(b), self.get(a)))
        def temp_dir(dir=None, prefix=b''):
            self.tmp += 1
            return TempDir(self, dir + b'/' + prefix + b'%d' % self.tmp)
        patch(fsck, 'temp_dir', temp_dir)
        patch(fsck, 'glob', SimpleNamespace(glob=lambda pat: sorted(p for p in self.files if fnmatch.fnmatchcase(p, pat))))
        patch(git, 'check_repo_or_die', lambda *a: None)
        patch(git, 'repo', lambda sub=b'', **k: b'/r/' + sub if sub else b'/r')

def run_case(ctx, mode, n, opts=(), jobs=0, named=True, **kw):
    argv = [b'fsck'] + [b'-' + mode[0:1].encode()] * (mode != 'verify') + list(opts)
    if jobs: argv.append(b'-j%d' % jobs)
    w = World(ctx, argv, n, mode, **kw)
    if named: argv.extend(s + b'.pack' for s in w.stems)
    w.jobs = jobs
    w.install()
    disabled = b'--disable-par2' in opts or w.setup
    before = dict(w.files)
    code = w.main()
    ctx.check(not w.forks, 'every job is waited for')
    ctx.check(code == 0 or code != 0, 'there is an exit status')
    if mode != 'verify' and disabled:
        ctx.check(and_(code != 0, code != 1), 'no repair or protection without par2')
        ctx.check(w.files == before, 'nothing is changed without par2')
        ctx.reach('disabled')
        return
    killed = any(s == 9 for _, s in w.waits)
    fine, repaired, everrep = True, False, False
    for i in range(n):
        if w.p2[i] in ('novol', 'noidx', 'empty'):
            fine = False
        elif mode == 'verify':
            fine = and_(fine, w.good0[i], or_(disabled or w.p2[i] == 'none', w.verify_rc[i] == 0))
        elif mode == 'repair':
            fine = and_(fine, w.good(i))
            repaired = or_(repaired, not_(w.good0[i]))
        else:
            fine = and_(fine, w.complete(i))
    if killed: fine = False
    if mode != 'repair': repaired = False
    ctx.check(implies(code == 0, fine), 'success is only reported when every pack is fine')
    ctx.check(implies(code == 0, not_(repaired)), 'a repair is reported')
    ctx.check(implies(code == 1, and_(fine, repaired)), 'the informational status means that repairs were needed and that all succeeded')
    ctx.check(implies(fine, code == (1 if repaired else 0)), 'no error is reported when there is none')
    if mode == 'verify':
        ctx.check(w.files == before, 'checking changes nothing')
    for i in range(n):
        ctx.check(implies(w.good0[i], and_(w.files.get(w.stems[i] + b'.pack') == before[w.stems[i] + b'.pack'],
                                           w.files.get(w.stems[i] + b'.idx') == before.get(w.stems[i] + b'.idx'))),
                  'a good pack is left as it was')
        for s in (b'.par2', b'.vol000+200.par2'):
            p = w.stems[i] + s
            if p in before: ctx.check(w.files.get(p) == before[p], 'recovery data is left as it was')
    ctx.check(not any(b'-bup-tmp-' in p for p in w.files), 'no temporary files are left')
    if code == 0: ctx.reach('0')
    elif code == 1: ctx.reach('1')
    else: ctx.reach('error')

def par2_ok(ctx):
    """--par2-ok, for every outcome of running par2"""
    w = World(ctx, [b'fsck', b'--par2-ok'], 1, 'verify', setup=ctx.choose('setup', 3))
    w.jobs = 0
    w.install()
    code = w.main()
    ctx.check(code == (0 if w.setup == 0 else 1), '--par2-ok tells whether par2 works')
    ctx.reach('done')

def not_a_pack(ctx):
    """arguments which do not end in .pack"""
    w = World(ctx, [b'fsck'], 1, 'verify')
    w.jobs = 0
    s = ctx.bytes('name', ctx.choose('len', 8), alphabet=b'.packx/\n')
    ctx.assume(not_(s[-5:] == b'.pack'))
    w.install()
    parse = options.Options.parse_bytes
    def parse_bytes(self, args):                # (getopt's own work is not of interest)
        opt, flags, extra = parse(self, args)
        return opt, flags, [w.stems[0] + b'.pack', s]
    patch(options.Options, 'parse_bytes', parse_bytes)
    patch(fsck, 'argv_bytes', lambda x: x)
    seen = []
    orig = w.run
    def run(cmd, **k):
        if cmd[0] == b'git': seen.append(cmd)
        return orig(cmd, **k)
    patch(fsck, 'run', run)
    patch(fsck, 'path_msg', lambda p: 'x')
    code = w.main()
    ctx.check(and_(code != 0, code != 1), 'an argument that is not a pack is an error')
    ctx.check(not seen, 'and nothing is checked')
    ctx.reach('done')

SOME = ('both', 'none', 'noidx')
def cases(tier):
    t = tier == 'thorough'
    n = 3
    ALL = ('both', 'none', 'novol', 'noidx', 'empty')
    B = ' packs, each with any two bytes of data and of recorded checksum, any exit statuses of par2; '
    out = [
     Case('verify', run_case, ('0', 'error'), mode='verify', n=n, p2=ALL if t else SOME, bounds='%d' % n + B + 'par2 files complete, absent, incomplete'),
     Case('verify-found', run_case, ('0', 'error'), mode='verify', n=2, named=False, p2=ALL, bounds='2' + B + 'packs found in the repository'),
     Case('verify-damaged-files', run_case, ('0', 'error'), mode='verify', n=2 if t else 1, p2=ALL, idx=('sym', 'ok', 'none', 'short', 'empty'), sizes=(22, 19, 0),
          bounds='1 (thorough 2)' + B + 'index intact, damaged, truncated or missing; pack truncated'),
     Case('quick', run_case, ('0', 'error'), mode='verify', n=2, opts=(b'--quick',), p2=('none', 'both'), idx=('sym', 'none', 'short') if t else ('sym', 'none'),
          sizes=(22, 19) if t else (22,), bounds='2' + B + '--quick'),
     Case('quick-short', run_case, ('0', 'error'), mode='verify', n=1, opts=(b'--quick',), p2=('none', 'both'), idx=('sym', 'none', 'short', 'empty'),
          sizes=(22, 19, 0), bounds='1' + B + '--quick, truncated files'),
     Case('verify-disabled', run_case, ('0', 'error'), mode='verify', n=2, opts=(b'--disable-par2',), p2=SOME, bounds='2' + B + '--disable-par2'),
     Case('verify-no-par2', run_case, ('0', 'error'), mode='verify', n=2, setup=2, p2=SOME, bounds='2' + B + 'par2 cannot be run'),
     Case('verify-jobs', run_case, ('0', 'error'), mode='verify', n=3 if t else 2, jobs=2, kill=True, p2=SOME, weight=3, budget=1500,
          bounds='2 (thorough 3)' + B + '2 jobs, any of them killed, collected in any order'),
     Case('verify-jobs-3', run_case, ('0', 'error'), mode='verify', n=3, jobs=3 if t else 2, p2=('both', 'none'), weight=3, budget=1500,
          bounds='3' + B + '2 (thorough 3) jobs, collected in any order'),
     Case('repair', run_case, ('0', '1', 'error'), mode='repair', n=2, p2=SOME, weight=3, bounds='2' + B),
     Case('repair-3', run_case, ('0', '1', 'error'), mode='repair', n=3, p2=('both', 'none') if t else ('both',), weight=3, budget=1500, bounds='3' + B),
     Case('repair-idx', run_case, ('0', '1', 'error'), mode='repair', n=1, p2=ALL, idx=('sym', 'ok', 'none', 'short', 'empty'), sizes=(22, 19, 0),
          opts=(b'-vv',), bounds='1' + B + 'index and pack damaged in any way'),
     Case('repair-quick', run_case, ('0', '1', 'error'), mode='repair', n=2 if t else 1, p2=('both', 'none'), idx=('sym', 'none', 'short'), sizes=(22, 19),
          opts=(b'--quick',), bounds='1 (thorough 2)' + B + '--quick'),
     Case('repair-jobs', run_case, ('0', '1', 'error'), mode='repair', n=2, jobs=2, kill=True, p2=('both', 'none'), weight=3, budget=1500,
          bounds='2' + B + '2 jobs, any killed, collected in any order'),
     Case('repair-jobs-1', run_case, ('0', '1', 'error'), mode='repair', n=2, jobs=1, p2=SOME, weight=3, budget=1500, bounds='2' + B + '-j1'),
     Case('generate', run_case, ('0', 'error'), mode='generate', n=2, p2=SOME, bounds='2' + B),
     Case('generate-1', run_case, ('0', 'error'), mode='generate', n=1, p2=ALL, extra=1, opts=(b'-v',), bounds='1' + B + 'par2 creates further files'),
     Case('generate-copy', run_case, ('0', 'error'), mode='generate', n=2, p2=('none', 'both'), link=1, bounds='2' + B + 'packs cannot be linked'),
     Case('generate-jobs', run_case, ('0', 'error'), mode='generate', n=2, jobs=2, kill=True, p2=SOME, weight=3, bounds='2' + B + '2 jobs'),
     Case('no-par2', run_case, ('disabled',), mode='repair', n=1, setup=1, bounds='par2 does not work, --repair'),
     Case('no-par2-generate', run_case, ('disabled',), mode='generate', n=1, opts=(b'--disable-par2',), bounds='--generate --disable-par2'),
     Case('par2-ok', par2_ok, ('done',), bounds='every outcome of running par2'),
     Case('not-a-pack', not_a_pack, ('done',), bounds='any argument of up to 7 bytes of .packx/ and newline'),
    ]
    return out
