META = {
 'level': 'model_checking',
 'assumptions': [
  'names of 1 to 9 (thorough 12) arbitrary bytes except NUL and slash; every file kind; stored either directly '
  'or (regular files) as a chunked tree',
 ],
}
import stat
from sx.harness import Case
from sx.num import and_, or_, implies, not_
from bup import git

KINDS = [(stat.S_IFREG | 0o644, 0o100644), (stat.S_IFREG | 0o755, 0o40000), (stat.S_IFDIR | 0o755, 0o40000),
         (stat.S_IFLNK | 0o777, 0o120000), (stat.S_IFIFO | 0o600, 0o100644), (stat.S_IFCHR | 0o600, 0o100644),
         (stat.S_IFBLK | 0o600, 0o100644), (stat.S_IFSOCK | 0o600, 0o100644)]


def reserved(s):
    # the metadata entry and split directory entries "<abbrev>..<level>.bupd"
    return or_(s == b'.bupm', s == b'.bupm.bup' and False, s.endswith(b'.bupd'))


def c_round(ctx, n):
    name = ctx.bytes('name', n, exclude=b'\0/')
    mode, gitmode = KINDS[ctx.choose('kind', len(KINDS))]
    stored = git.mangle_name(name, mode, gitmode)
    ctx.check(not_(reserved(stored)), 'stored name is not reserved')
    back, kind = git.demangle_name(stored, gitmode)
    ctx.check(back == name, 'demangling gives back the name')
    chunked = stat.S_ISREG(mode) and stat.S_ISDIR(gitmode)
    ctx.check(kind == (git.BUP_CHUNKED if chunked else git.BUP_NORMAL), 'demangling gives back the kind')
    ctx.reach('chunked' if chunked else 'plain')


def c_collide(ctx, n, m):
    a = ctx.bytes('a', n, exclude=b'\0/')
    b = ctx.bytes('b', m, exclude=b'\0/')
    ka, kb = KINDS[ctx.choose('ka', 3)], KINDS[ctx.choose('kb', 3)]
    sa, sb = git.mangle_name(a, *ka), git.mangle_name(b, *kb)
    ca, cb = ka is KINDS[1], kb is KINDS[1]
    if ca == cb:
        ctx.check(implies(sa == sb, a == b), 'distinct items never share a stored name')
    else:
        # one chunked, one not: never the same stored name
        ctx.check(not_(sa == sb), 'a chunked and another item never share a stored name')


def c_bupm(ctx):
    n, k = git.demangle_name(b'.bupm', 0o40000)
    ctx.check(k == git.BUP_CHUNKED and n == b'', 'chunked metadata is recognised')
    n, k = git.demangle_name(b'.bupm', 0o100644)
    ctx.check(k == git.BUP_NORMAL and n == b'', 'plain metadata is recognised')


def cases(tier):
    N = 9 if tier == 'quick' else 14
    out = [Case('bupm', c_bupm)]
    for n in range(1, N + 1):
        out.append(Case('round %d' % n, c_round, ('chunked', 'plain'), n=n, bounds='%d byte names' % n))
    for n in range(1, N + 1):
        for m in range(1, n + 1):
            if n - m in (0, 1, 4, 5, 8, 9, 10):
                out.append(Case('collide %d %d' % (n, m), c_collide, n=n, m=m, bounds='%d and %d byte names' % (n, m)))
    return out
