META = {
 'level': 'model_checking',
 'assumptions': [
  'every source is sorted by its own ordering (the documented requirement) and elements with the same key sort next '
  'to each other',
  'elements are bounded: one or two symbolic bytes, or entries with a symbolic name and rank',
 ],
}
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from bup import helpers, git, index

def sorted_source(ctx, tag, n, make, before):
    out = []
    for i in range(n):
        e = make('%s%d' % (tag, i))
        if out: ctx.assume(not_(before(e, out[-1])))
        out.append(e)
    return out

class Source:
    """a sized iterable, as a pack index list is"""
    def __init__(self, items): self.items = items
    def __len__(self): return len(self.items)
    def __iter__(self): return iter(self.items)

def run_plain(ctx, sizes, width, via):
    srcs = [sorted_source(ctx, 's%d_' % k, n, lambda t: ctx.bytes(t, width), lambda a, b: a < b)
            for k, n in enumerate(sizes)]
    everything = [e for s in srcs for e in s]
    seen = []
    if via == 'idxmerge':
        out = list(git.idxmerge([Source(s) for s in srcs], final_progress=False))
    else:
        calls = []
        out = list(helpers.merge_iter([Source(s) for s in srcs], 2, lambda c, t: calls.append((c, t)),
                                      lambda c, t: seen.append((c, t))))
        ctx.check(seen == [(len(everything), len(everything))], 'the final report counts every element')
        ctx.check(calls == [(i, len(everything)) for i in range(0, len(everything), 2)], 'progress reports')
    verify(ctx, out, everything)

def verify(ctx, out, everything):
    for i in range(len(out) - 1):
        ctx.check(out[i] < out[i + 1], 'strictly ascending')
    for e in everything:
        ctx.check(or_(*[e == o for o in out]) if out else False, 'no element is lost')
    for o in out:
        ctx.check(or_(*[e == o for e in everything]), 'nothing is invented')
    if len(out) < len(everything): ctx.reach('duplicates')
    if len(out) == len(everything): ctx.reach('distinct')

class Item:
    def __init__(self, name, rank): self.name, self.rank = name, rank
    def __lt__(self, o):
        if self.name == o.name: return self.rank < o.rank
        return self.name < o.name

def run_key(ctx, sizes):
    make = lambda t: Item(ctx.bytes('n' + t, 1), ctx.int('r' + t, 0, 3))
    srcs = [sorted_source(ctx, '%d_' % k, n, make, lambda a, b: a < b) for k, n in enumerate(sizes)]
    everything = [e for s in srcs for e in s]
    out = list(helpers.merge_iter([Source(s) for s in srcs], 100, lambda c, t: None, lambda c, t: None, key='name'))
    for i in range(len(out) - 1):
        ctx.check(out[i].name < out[i + 1].name, 'strictly ascending names')
    for e in everything:
        ctx.check(or_(*[e.name == o.name for o in out]) if out else False, 'no name is lost')
    for o in out:
        ctx.check(any([o is e for e in everything]), 'nothing is invented')
        for e in everything:
            ctx.check(implies(e.name == o.name, not_(e.rank < o.rank)), 'the element that sorts first is given')
    if len(out) < len(everything): ctx.reach('duplicates')
    else: ctx.reach('distinct')

def entry(ctx, t, deleted=True):
    flags = [index.IX_EXISTS, index.IX_EXISTS | index.IX_HASHVALID, 0][ctx.choose('f' + t, 3 if deleted else 2)]
    real = ctx.flag('real' + t)
    e = index.NewEntry(b'x', ctx.bytes('n' + t, 1, exclude=b'\0/'), None, 1, 2, 1, 5 if real else 0, 6, 7, 8, 0o644, 0o644,
                       b's' * 20, flags, 0, 0, 0)
    return e

def run_index(ctx, sizes):
    patch(index, 'qprogress', lambda *a: None); patch(index, 'progress', lambda *a: None)
    srcs = []
    for k, n in enumerate(sizes):
        s = []
        for i in range(n):
            e = entry(ctx, '%d_%d' % (k, i))
            if s: ctx.assume(e.name < s[-1].name)       # an index holds each name once, last name first
            s.append(e)
        srcs.append(s)
    everything = [e for s in srcs for e in s]
    out = list(index.merge(*[Source(s) for s in srcs]))
    for i in range(len(out) - 1):
        ctx.check(out[i].name > out[i + 1].name, 'strictly descending names')
    for e in everything:
        ctx.check(or_(*[e.name == o.name for o in out]) if out else False, 'no path is lost')
    for o in out:
        for e in everything:
            if e is o: continue
            better = (e.is_valid(), e.is_fake()) < (o.is_valid(), o.is_fake())
            if better:
                ctx.check(not_(e.name == o.name), 'an entry to be saved wins over a valid one, a real one over a placeholder')
    if len(out) < len(everything): ctx.reach('duplicates')
    else: ctx.reach('distinct')

def cases(tier):
    B = ('duplicates', 'distinct'); D = ('distinct',)
    r = []
    plain = [(), (0,), (2,), (1, 1), (0, 2), (2, 2), (3, 1), (1, 1, 1), (2, 0, 2), (2, 2, 1)]
    if tier == 'thorough': plain += [(3, 2), (3, 3), (2, 2, 2), (1, 1, 1, 1), (4, 2), (2, 1, 1, 1), (3, 2, 1)]
    for sizes in plain:
        req = D if sum(sizes) < 2 else B
        r.append(Case('merge-' + '+'.join(map(str, sizes)), run_plain, req,
                      bounds='sources of %s elements of 1 symbolic byte' % (list(sizes),), sizes=sizes, width=1, via='merge'))
    for sizes in [(1, 1), (2, 1)] + ([(2, 2), (1, 1, 1)] if tier == 'thorough' else []):
        r.append(Case('oids-' + '+'.join(map(str, sizes)), run_plain, B,
                      bounds='pack index lists of %s 20-byte ids' % (list(sizes),), sizes=sizes, width=20, via='idxmerge'))
    for sizes in [(2,), (1, 1), (2, 1), (1, 1, 1)] + ([(2, 2), (3, 1), (2, 1, 1)] if tier == 'thorough' else []):
        r.append(Case('key-' + '+'.join(map(str, sizes)), run_key, B,
                      bounds='sources of %s items with symbolic name and rank' % (list(sizes),), sizes=sizes))
    for sizes in [(1, 1), (2, 1)] + ([(2, 2), (1, 1, 1)] if tier == 'thorough' else []):
        r.append(Case('index-' + '+'.join(map(str, sizes)), run_index, B,
                      bounds='indexes of %s entries with symbolic names, flags and realness' % (list(sizes),), sizes=sizes))
    return r
