META = {
 'level': 'model_checking',
 'assumptions': [
  'paths are absolute and do not start with a double slash (bup save only passes paths cleaned by resolve_parent); '
  'several strip prefixes are normalized (the longest is chosen as given); a single one may be any absolute path',
 ],
}
import os
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from bup import helpers as H

def parts(p):
    """Components of a path, resolving . and .. lexically."""
    r = []
    for x in p.split(b'/'):
        if len(x) == 0 or x == b'.': continue
        if x == b'..': r = r[:-1]
        else: r.append(x)
    return r

def full(ps): return b'/' + b'/'.join(ps)

def is_prefix(a, b):
    return len(a) <= len(b) and and_(True, *[x == y for x, y in zip(a, b)])

def same(ctx, got, want, what):
    ctx.check(len(got) == len(want), what + ': number of components')
    for (gn, gp), (wn, wp) in zip(got, want):
        ctx.check(gn == wn, what + ': names')
        if wp is None: ctx.check(gp is None, what + ': no directory')
        else:
            ctx.check(gp is not None, what + ': has a directory')
            ctx.check(gp == wp, what + ': directories')

def plain(ps):
    return [(b'', b'/')] + [(p, full(ps[:i + 1])) for i, p in enumerate(ps)]

def absolute(ctx, name, n, alphabet):
    p = b'/' + ctx.bytes(name, n, alphabet=alphabet)
    if n: ctx.assume(not_(and_(p[1] == 47, (n < 2) if n < 2 else p[2] != 47)))     # no //x
    return p

def c_plain(ctx, n, alphabet):
    p = absolute(ctx, 'p', n, alphabet)
    same(ctx, H.path_components(p), plain(parts(p)), 'components')
    ctx.reach('done')

def c_strip(ctx, n, ms, alphabet):
    p = absolute(ctx, 'p', n, alphabet)
    prefixes = [absolute(ctx, 's%d' % i, m, alphabet) for i, m in enumerate(ms)]
    ps = parts(p)
    best = None
    for s in prefixes:
        sp = parts(s)
        if len(ms) > 1: ctx.assume(full(sp) == s)      # they are compared as given
        if sp and is_prefix(sp, ps) and (best is None or len(sp) > len(best)): best = sp
    got = H.stripped_path_components(p, prefixes)
    if best is None:
        same(ctx, got, plain(ps), 'unstripped')
        ctx.reach('kept')
    else:
        k = len(best)
        want = [(b'', full(ps[:k]))] + [(x, full(ps[:k + i + 1])) for i, x in enumerate(ps[k:])]
        same(ctx, got, want, 'stripped')
        ctx.reach('stripped')

def graft_one(old, new, ps):
    """Map the real path ps: new + what follows old; only what is at or below the graft point is real."""
    k = len(old)
    names = [b''] + new + ps[k:]
    real = [None] * len(new) + [full(ps[:k + i]) for i in range(len(ps) - k + 1)]
    return list(zip(names, real))

def c_graft(ctx, n, gs, alphabet, newalpha):
    p = absolute(ctx, 'p', n, alphabet)
    grafts = []
    for i, (a, b) in enumerate(gs):
        grafts.append((absolute(ctx, 'old%d' % i, a, alphabet), absolute(ctx, 'new%d' % i, b, newalpha)))
    ps = parts(p)
    got = H.grafted_path_components(grafts, p)
    for old, new in grafts:
        op = parts(old)
        if is_prefix(op, ps):
            same(ctx, got, graft_one(op, parts(new), ps), 'grafted')
            ctx.reach('grafted')
            return
    same(ctx, got, plain(ps), 'ungrafted')
    ctx.reach('kept')

def c_any(ctx, n, m, w):
    """Any bytes in a component."""
    x = ctx.bytes('x', n, exclude=b'/\0')
    y = ctx.bytes('y', m, exclude=b'/\0')
    z = ctx.bytes('z', w, exclude=b'/\0')
    for t in (x, y, z): ctx.assume(not_(or_(t == b'.', t == b'..')))
    p = b'/' + x + b'/' + y
    same(ctx, H.path_components(p), plain([x, y]), 'components')
    got = H.grafted_path_components([(b'/' + x, b'/' + z + b'/k')], p)
    same(ctx, got, graft_one([x], [z, b'k'], [x, y]), 'grafted')
    got = H.stripped_path_components(p, [b'/' + z])
    same(ctx, got, [(b'', b'/' + x), (y, p)] if z == x else plain([x, y]), 'stripped')
    ctx.reach('done')

def cases(tier):
    q = tier == 'quick'
    A, B = b'/a.b', b'/a.\\1'
    out = []
    for n in range(0, 6 if q else 8):
        out.append(Case('plain %d' % n, c_plain, ('done',), n=n, alphabet=A, weight=2 ** n, bounds='/ and %d characters of / a . b' % n))
    strips = [(3, (1,)), (3, (2,)), (3, (3,)), (4, (2,)), (2, (3,)), (3, (1, 2)), (3, (3, 1)), (4, (1, 3))]
    strips += [(5, (2,)), (4, (3,)), (4, (4,)), (5, (3,)), (4, (2, 2)), (4, (3, 3)), (3, (1, 1, 2))]
    for n, ms in strips:
        out.append(Case('strip %d %r' % (n, ms), c_strip, (), n=n, ms=ms, alphabet=b'/ab' if sum(ms) + n > 6 else A, weight=4 ** (n + sum(ms)) // 1000,
                        bounds='path / and %d, prefixes / and %r characters of / a . b' % (n, ms)))
    grafts = [(3, ((1, 1),)), (3, ((2, 1),)), (3, ((0, 2),)), (3, ((3, 0),)), (2, ((1, 3),)), (3, ((1, 1), (2, 1)))]
    if not q: strips += [(6, (2,)), (5, (4,)), (5, (2, 2)), (5, (1, 3)), (6, (3,)), (4, (2, 2, 2))]
    grafts += [(4, ((1, 2),)), (4, ((3, 2),)), (4, ((2, 2),)), (5, ((3, 1),)), (3, ((2, 2), (1, 1))), (4, ((1, 3),))]
    if not q: grafts += [(5, ((2, 2),)), (5, ((1, 3),)), (6, ((3, 2),)), (4, ((2, 1), (1, 2))), (4, ((4, 3),))]
    for n, gs in grafts:
        out.append(Case('graft %d %r' % (n, gs), c_graft, (), n=n, gs=gs, alphabet=b'/ab' if n + sum(map(sum, gs)) > 5 else A, newalpha=B if n + sum(map(sum, gs)) < 6 else b'/a\\', weight=4 ** (n + sum(map(sum, gs))) // 1000,
                        bounds='path / and %d, graft points %r characters' % (n, gs)))
    for n, m, w in ((1, 1, 1), (2, 1, 2), (2, 2, 2)) if q else ((1, 1, 1), (2, 1, 2), (2, 2, 2), (3, 3, 3), (3, 1, 4)):
        out.append(Case('any %d %d %d' % (n, m, w), c_any, ('done',), n=n, m=m, w=w, weight=30, bounds='components of %d, %d and %d arbitrary bytes' % (n, m, w)))
    return out
