META = {
 'level': 'model_checking',
 'cbmc': 'cbmc_c29',
 'assumptions': [
  'timestamps of any 64-bit nanosecond count (and the index and metadata forms for any 64-bit count of seconds with any '
  'nanoseconds); the printed form for up to 10**9 seconds either side of 1970 (quick) or 10**12 (thorough); '
  'stat results as produced by the native code from any time_t and nanoseconds, with Python integer arithmetic modelled as exact',
 ],
}
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from sx.fmt import digit
from bup import xstat, index, metadata
from bup.metadata import Metadata
from sx.seq import SymFile
import io

S = 10 ** 9


def ns_arg(ctx, name, bits=63):
    return ctx.int(name, -(1 << bits), (1 << bits) - 1, math=True)


def c_pairs(ctx):
    t = ns_arg(ctx, 't', 94)
    s, ns = xstat.nsecs_to_timespec(t)
    ctx.check(and_(ns >= 0, ns < S, s * S + ns == t), 'seconds and nanoseconds represent the time')
    s2, ns2 = xstat.fstime_to_timespec(t)
    ctx.check(and_(ns2 >= 0, ns2 < S, s2 * S + ns2 == t), 'fstime_to_timespec represents the time')
    ctx.check(xstat.timespec_to_nsecs((s, ns)) == t, 'the pair converts back to the time')
    f = xstat.fstime_floor_secs(t)
    ctx.check(and_(f * S <= t, t < (f + 1) * S), 'whole seconds are rounded down')
    vs, us = xstat.nsecs_to_timeval(t)
    ctx.check(and_(us >= 0, us < 10 ** 6, (vs * 10 ** 6 + us) * 1000 <= t, t < (vs * 10 ** 6 + us + 1) * 1000),
              'seconds and microseconds represent the time')
    if t < 0: ctx.reach('before 1970')
    else: ctx.reach('after 1970')
    s = ctx.int('s', -(1 << 63), (1 << 63) - 1, math=True)
    ns = ctx.int('ns', 0, S - 1, math=True)
    ctx.check(xstat.timespec_to_nsecs((s, ns)) == s * S + ns, 'a pair converts to nanoseconds')


def c_printed(ctx, lo, hi):
    t = ctx.int('t', lo, hi, math=True)
    out = xstat.fstime_to_sec_bytes(t)
    i, n = 0, len(out)
    neg = out[0] == 45
    if neg: i = 1; ctx.reach('negative')
    whole, nd = 0, 0
    while i < n and out[i] != 46:
        ctx.check(and_(out[i] >= 48, out[i] <= 57), 'the printed time is a number')
        whole = whole * 10 + digit(out[i]); i += 1; nd += 1
    ctx.check(nd > 0, 'the printed time has whole seconds')
    frac = 0
    if i < n:
        ctx.check(n - i == 10, 'fractions are printed with nine digits')
        for k in range(i + 1, n):
            ctx.check(and_(out[k] >= 48, out[k] <= 57), 'the printed time is a number')
            frac = frac * 10 + digit(out[k])
        ctx.reach('fraction')
    else: ctx.reach('whole')
    v = whole * S + frac
    ctx.check((-v if neg else v) == t, 'the printed time is the time')


def stamps(ctx):
    """three times as (seconds, nanoseconds)"""
    out = []
    for k in 'acm':
        s = ctx.int(k + 's', -(1 << 63), (1 << 63) - 1)
        ns = ctx.int(k + 'n', 0, S - 1)
        out.append(s * S + ns)
    return out


def c_index(ctx):
    """An index entry written and read back has the same times."""
    a, c, m = stamps(ctx)
    e = index.NewEntry(b'f', b'/f', None, 1, 2, 1, c, m, a, 5, 0o100644, 0, index.EMPTY_SHA, index.IX_EXISTS, 0, 0, 0)
    data = e.packed()
    ctx.check(len(data) == index.ENTLEN, 'length of an entry')
    r = index.ExistingEntry(None, b'f', b'/f', data, 0)
    ctx.check(and_(r.atime == a, r.mtime == m, r.ctime == c), 'index entries keep the times')
    ctx.reach('kept')


def c_index_clamp(ctx):
    """tmax only ever lowers mtime and ctime, to tmax."""
    a, c, m = [ctx.int(k, -(1 << 62), 1 << 62, math=True) for k in 'acm']
    tmax = ctx.int('tmax', 0, 1 << 62, math=True)
    e = index.NewEntry(b'f', b'/f', tmax, 1, 2, 1, c, m, a, 5, 0o100644, 0, index.EMPTY_SHA, index.IX_EXISTS, 0, 0, 0)
    ctx.check(implies(m <= tmax, e.mtime == m), 'a time up to the limit is kept')
    ctx.check(implies(c <= tmax, e.ctime == c), 'a time up to the limit is kept')
    ctx.check(and_(e.mtime <= tmax, e.ctime <= tmax), 'no recorded time is past the limit')
    ctx.check(e.atime == a, 'the access time is kept')
    ctx.reach('done')


def c_meta(ctx, which, k):
    """The metadata record keeps the times (s in steps of the encoding's size)."""
    lo, hi = [(-(1 << 63), -(1 << 40)), (-(1 << 40), -1), (0, 1 << 40), (1 << 40, (1 << 63) - 1)][k]
    s = ctx.int('s', lo, hi) if lo >= 0 else -ctx.int('m', -hi, -lo)
    ns = ctx.int('ns', 0, S - 1)
    t = {'atime': -5 * S, 'mtime': 7, 'ctime': 10 ** 18 + 1}
    t[which] = s * S + ns
    x = Metadata(frozen=False)
    x.mode, x.uid, x.gid, x.user, x.group, x.rdev, x.size = 0o100644, 1, 2, b'u', b'g', 0, 3
    for f in t: setattr(x, f, t[f])
    rec = x._encode_common()
    from bup import vint
    port = io.BytesIO(vint.encode_bvec(rec))
    y = Metadata(frozen=False)
    y._load_common_rec(port)
    for f in t:
        ctx.check(getattr(y, f) == t[f], 'metadata records keep the times')
    ctx.reach('kept')


def c_apply(ctx, mode, link):
    """Restoring metadata sets exactly the recorded access and modification time."""
    a, m = ns_arg(ctx, 'a'), ns_arg(ctx, 'm')
    calls = []
    patch(metadata.os, 'utime', lambda path, times=None, *, ns=None, follow_symlinks=True:
          calls.append((path, ns, follow_symlinks)))
    patch(metadata.os, 'lchown', lambda *a: None)
    patch(metadata.os, 'chmod', lambda *a: None)
    x = Metadata(frozen=False)
    x.mode, x.uid, x.gid, x.user, x.group, x.rdev, x.size = mode, 0, 0, b'', b'', 0, 3
    x.atime, x.ctime, x.mtime = a, 7, m
    x._apply_common_rec(b'p')
    ctx.check(len(calls) == 1 and calls[0][0] == b'p' and calls[0][2] == (not link), 'the times of the item itself are set, once')
    ctx.check(and_(calls[0][1][0] == a, calls[0][1][1] == m), 'the recorded times are set')
    ctx.reach('set')


def cases(tier):
    lim = 10 ** 9 if tier == "quick" else 10 ** 12
    return [
        Case('pairs', c_pairs, ('before 1970', 'after 1970'), bounds='every 95-bit nanosecond count, every 64-bit second'),
        Case('printed', c_printed, ('negative', 'fraction', 'whole'), lo=-lim * S, hi=lim * S, weight=20,
             bounds='every time within %d seconds of 1970' % lim),
        Case('index entry', c_index, ('kept',), bounds='any 64-bit seconds and nanoseconds'),
        Case('index limit', c_index_clamp, ('done',), bounds='any times within 2**62 ns'),
        Case('apply file', c_apply, ('set',), mode=0o100644, link=False, bounds='any 64-bit times'),
        Case('apply directory', c_apply, ('set',), mode=0o040755, link=False, bounds='any 64-bit times'),
        Case('apply symlink', c_apply, ('set',), mode=0o120777, link=True, bounds='any 64-bit times'),
    ] + [Case('metadata %s %d' % (f, k), c_meta, ('kept',), which=f, k=k, weight=20, bounds='any 64-bit seconds (in four ranges) and nanoseconds')
         for f in ('atime', 'mtime', 'ctime') for k in range(4)]
