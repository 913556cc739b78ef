META = {
 'level': 'model_checking',
 'assumptions': [
  'up to 3 entries (4 thorough), names of 1 to 3 arbitrary bytes except NUL and slash, pairwise distinct, '
  'arbitrary modes up to 0o177777 (16 bit), arbitrary 20-byte ids',
 ],
}
import stat
from sx.harness import Case
from sx.num import and_, or_, implies, not_
from bup import git


def entry(ctx, i, nlen, full_mode):
    name = ctx.bytes('name%d' % i, nlen, exclude=b'\0/')
    if full_mode:
        mode = ctx.int('mode%d' % i, 1, 0o177777)
    else:
        mode = (0o100644, 0o40000, 0o120000, 0o100755)[ctx.choose('mode%d' % i, 2)]
    # ids are opaque: two symbolic bytes (which may be NUL, slash, space) suffice to
    # expose any misparse, the others vary with the entry
    oid = ctx.bytes('oid%d' % i, 2) + bytes([i]) * 16 + ctx.bytes('oidz%d' % i, 2)
    return mode, name, oid


def key(e):
    return e[1] + b'/' if stat.S_ISDIR(e[0]) else e[1]


def same(a, b):
    return and_(a[0] == b[0], a[1] == b[1], a[2] == b[2])


def c_codec(ctx, lens, full_mode):
    ents = [entry(ctx, i, n, full_mode) for i, n in enumerate(lens)]
    for i in range(len(ents)):
        for j in range(i):
            ctx.assume(ents[i][1] != ents[j][1])
    data = git.tree_encode(ents)
    got = git.tree_entries(data)
    ctx.check(len(got) == len(ents), 'number of entries')
    for e in ents:
        ctx.check(or_(*[same(e, g) for g in got]), 'every entry is decoded')
    for a, b in zip(got, got[1:]):
        ctx.check(key(a) < key(b), 'git order')
    it = list(git.tree_iter(data))
    ctx.check(len(it) == len(got), 'iteration yields every entry')
    for a, b in zip(it, got):
        ctx.check(same(a, b), 'iteration agrees with the listing')
    # canonical form: octal without leading zeros, one space, NUL, 20 bytes
    want = b''.join([b'%o %s\0%s' % e for e in got])
    ctx.check(data == want, 'canonical encoding')
    ctx.check(same(git.last_tree_entry(data), got[-1]), 'last entry')
    ctx.reach('decoded')


def c_find(ctx, lens, want):
    ents = [entry(ctx, i, n, False) for i, n in enumerate(lens)]
    for i in range(len(ents)):
        for j in range(i):
            ctx.assume(ents[i][1] != ents[j][1])
    name = ctx.bytes('want', want, exclude=b'\0/')
    data = git.tree_encode(ents)
    r = git.find_tree_entry(name, data)
    if r is None:
        for e in ents:
            ctx.check(e[1] != name, 'lookup misses only absent names')
        ctx.reach('absent')
    else:
        ctx.check(or_(*[and_(same(e, r), e[1] == name) for e in ents]), 'lookup returns the named entry')
        ctx.reach('found')


def c_empty(ctx):
    data = git.tree_encode([])
    ctx.check(data == b'', 'empty tree is empty')
    ctx.check(git.tree_entries(data) == [] and list(git.tree_iter(data)) == [], 'empty tree has no entries')
    ctx.check(git.find_tree_entry(ctx.bytes('n', 1, exclude=b'/'), data) is None, 'nothing found in it')


def cases(tier):
    out = [Case('empty', c_empty)]
    thorough = tier != 'quick'
    L = [(1,), (2,), (1, 1), (1, 2), (2, 2), (1, 1, 1), (1, 1, 2), (1, 2, 2)]
    if thorough: L += [(2, 1, 2), (2, 2, 2), (1, 2, 3), (3, 3), (1, 3), (1, 1, 1, 1), (1, 1, 2, 2)]
    for l in L:
        out.append(Case('codec %s' % (l,), c_codec, ('decoded', 'git order') if len(l) > 1 else ('decoded',),
                        lens=l, full_mode=False, weight=len(l), bounds='name lengths %s, file or directory' % (l,)))
    for l in [(1,), (1, 1)] + ([(1, 2)] if thorough else []):
        out.append(Case('modes %s' % (l,), c_codec, ('decoded',), lens=l, full_mode=True, bounds='every mode 1..0o177777'))
    F = [(1,), (1, 1), (1, 2), (1, 1, 1)] + ([(2, 2), (1, 1, 2), (1, 2, 2), (2, 3)] if thorough else [(2, 2), (1, 1, 2)])
    for l in F:
        for w in (1, 2):
            out.append(Case('find %s %d' % (l, w), c_find, ('absent',) + (('found',) if w in l else ()), lens=l, want=w, weight=len(l),
                            bounds='name lengths %s, looking up %d-byte names' % (l, w)))
    return out
