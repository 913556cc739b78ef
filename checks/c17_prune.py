META = {
 'level': 'model_checking',
 'assumptions': [
  'up to 4 saves (5 thorough) of one branch with non-increasing author dates (child to parent), each date anywhere in '
  'the years 2018 to 2021 (to the second), time zone UTC; the retention arguments range over the listed combinations; '
  'git rev-list, the save naming, bup rm and bup gc are replaced by stand-ins that record what they are given',
 ],
}
import os, time
os.environ['TZ'] = 'UTC'
time.tzset()
import bup.git, bup.vfs
from sx.harness import Case, patch
from sx.num import and_, or_, implies, not_, ite
from bup.cmd import prune_older

YEARS = (2018, 2019, 2020, 2021)
BASE = (1514764800, 1546300800, 1577836800, 1609459200)
DAYS = (365, 365, 366, 365)
MDAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
REF = 1622505600  # 2021-06-01


class Tm:
    def __init__(self, y, yday, sec):
        self.tm_year, self.tm_yday = y, yday + 1
        mon, mday, acc = 0, 0, 0
        for m, n in enumerate(MDAYS):
            if m == 1: n = ite(y % 4 == 0, 29, 28)
            mon = ite(yday >= acc, m + 1, mon)
            mday = ite(yday >= acc, yday - acc + 1, mday)
            acc = acc + n
        self.tm_mon, self.tm_mday = mon, mday
        self.tm_hour, self.tm_min, self.tm_sec = sec // 3600, sec // 60 % 60, sec % 60
        self.tm_wday, self.tm_isdst = 0, 0
    def __iter__(self):
        return iter((self.tm_year, self.tm_mon, self.tm_mday, self.tm_hour, self.tm_min,
                     self.tm_sec, self.tm_wday, self.tm_yday, self.tm_isdst))
    def __getitem__(self, i): return list(self)[i]


def mktimes(ctx, n, symbolic_years):
    """n (utc, tm) pairs, newest first."""
    out = []
    for i in range(n):
        y = ctx.choose('y%d' % i, len(symbolic_years))
        y = symbolic_years[y]
        k = YEARS.index(y)
        d = ctx.int('d%d' % i, 0, DAYS[k] - 1)
        s = ctx.int('s%d' % i, 0, 86399)
        utc = BASE[k] + d * 86400 + s
        if out: ctx.assume(utc <= out[-1][0])
        out.append((utc, Tm(y, d, s)))
    return out


def env(ctx, times):
    real = time.localtime
    def localtime(t=None):
        for u, tm in times:
            if u is t: return tm
        for u, tm in times:
            if u == t: return tm
        return real(t)
    if ctx.symbolic:
        patch(time, 'localtime', localtime)
        if hasattr(prune_older, 'localtime'): patch(prune_older, 'localtime', localtime)


def keep_oracle(times, start, ref):
    """start: (all, dailies, monthlies, yearlies) or None.  For each save: must it be kept?"""
    INF = 1 << 60
    st = [INF if s is None else s for s in start]
    zone = []
    for u, _ in times:
        a = u >= st[0] if ref is None else or_(u >= st[0], u > ref)
        d = and_(not_(a), u >= st[1])
        m = and_(not_(a), not_(d), u >= st[2])
        y = and_(not_(a), not_(d), not_(m), u >= st[3])
        zone.append((a, d, m, y))
    out = []
    for i, (u, tm) in enumerate(times):
        a, d, m, y = zone[i]
        dd = mm = yy = False
        for j in range(i):
            t2 = times[j][1]
            dd = or_(dd, and_(zone[j][1], t2.tm_year == tm.tm_year, t2.tm_yday == tm.tm_yday))
            mm = or_(mm, and_(zone[j][2], t2.tm_year == tm.tm_year, t2.tm_mon == tm.tm_mon))
            yy = or_(yy, and_(zone[j][3], t2.tm_year == tm.tm_year))
        out.append(or_(a, and_(d, not_(dd)), and_(m, not_(mm)), and_(y, not_(yy))))
    return out


def c_classify(ctx, n, mask, years):
    """The period starts are symbolic as well."""
    from collections import defaultdict
    times = mktimes(ctx, n, years)
    env(ctx, times)
    start, ps = [], {}
    for k, name in enumerate(('all', 'dailies', 'monthlies', 'yearlies')):
        v = ctx.int('start' + name, BASE[0] - 10, BASE[-1] + 400 * 86400) if mask >> k & 1 else None
        start.append(v)
        if v is not None: ps[name] = v
    ps = defaultdict(lambda: float('inf'), ps)
    saves = [(u, b'%020d' % i, b'save%d' % i) for i, (u, _) in enumerate(times)]
    got = {}
    for keep, save in prune_older.classify_saves(iter(saves), ps):
        i = [x[2] for x in saves].index(save[2])
        ctx.check(i not in got, 'each save is classified once')
        got[i] = keep
    ctx.check(len(got) == n, 'every save is classified')
    want = keep_oracle(times, start, None)
    for i in range(n):
        if got[i]: ctx.check(want[i], 'only promised saves are kept')
        else: ctx.check(not_(want[i]), 'no promised save is dropped')
    ctx.reach('kept' if got[n - 1] else 'dropped')


PERIODS = {'s': 1, 'min': 60, 'h': 3600, 'd': 86400, 'w': 7 * 86400, 'm': 31 * 86400, 'y': 366 * 86400}
ARGSETS = [
    (('dailies', 5, 'd'),),
    (('dailies', 2, 'y'),),
    (('monthlies', 3, 'y'),),
    (('yearlies', 'forever', ''),),
    (('all', 1, 'm'), ('dailies', 3, 'm'), ('monthlies', 1, 'y'), ('yearlies', 3, 'y')),
    (('all', 36, 'h'), ('yearlies', 100, 'y')),
    (('all', 90, 'min'), ('monthlies', 50, 'w')),
    (('dailies', 1, 'w'), ('monthlies', 'forever', '')),
    (('all', 3600, 's'), ('dailies', 1, 'm'), ('yearlies', 2, 'y')),
    (('all', 'forever', ''),),
]


def c_main(ctx, n, args, pretend):
    times = mktimes(ctx, n, (2019, 2020, 2021))
    env(ctx, times)
    names = [b'save-%d' % i for i in range(n)]
    calls = {}
    class Repo:
        def __init__(self, *a, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def close(self): pass
    def rm(repo, paths, **kw): calls.setdefault('rm', []).extend(paths)
    def gc(*a, **k): calls['gc'] = 'rm' in calls
    def list_refs(patterns=None, repo_dir=None, limit_to_heads=False, limit_to_tags=False):
        yield b'refs/heads/br', b'\x11' * 20
    def rev_list(ref, parse=None, format=None, repo_dir=None):
        for i, (u, _) in enumerate(times):
            yield (b'%040d' % i, u)
    class Out:
        def __init__(self): self.d = b''
        def write(self, b): self.d += b
    out = Out()
    patch(prune_older.git, 'check_repo_or_die', lambda *a: None)
    patch(prune_older.git, 'list_refs', list_refs)
    patch(prune_older.git, 'rev_list', rev_list)
    for mod in (prune_older,):
        patch(mod, 'save_names_for_commit_utcs', lambda utcs: iter(names[:len(list(utcs))]))
        patch(mod, 'LocalRepo', Repo)
        patch(mod, 'bup_rm', rm)
        patch(mod, 'bup_gc', gc)
        patch(mod, 'byte_stream', lambda f: out)
    argv = [b'prune-older', b'--unsafe', b'--wrt=%d' % REF]
    start = [None] * 4
    for kind, k, scale in args:
        argv.append(b'--keep-%s-for=%s' % (kind.encode(), (str(k) + scale).encode()))
        secs = (1 << 59) if k == 'forever' else k * PERIODS[scale]
        start[('all', 'dailies', 'monthlies', 'yearlies').index(kind)] = REF - secs
    if pretend: argv.append(b'--pretend')
    argv.append(b'br')
    prune_older.main(argv)
    want = keep_oracle(times, start, REF)
    if pretend:
        ctx.check('rm' not in calls and 'gc' not in calls, '--pretend changes nothing')
        lines = out.d.split(b'\n')[:-1]
        ctx.check(len(lines) == n, 'each save is listed')
        dropped = [l[2:] for l in lines if l.startswith(b'- ')]
        ctx.check(all(l[:2] in (b'- ', b'+ ') for l in lines), 'lines are + or -')
    else:
        dropped = list(calls.get('rm', ()))
        ctx.check(calls.get('gc') is True, 'garbage is collected after the removal')
    ctx.check(len(set(dropped)) == len(dropped), 'no save removed twice')
    for d in dropped: ctx.check(d in [b'br/' + x for x in names], 'only saves of the branch are removed')
    for i in range(n):
        if b'br/' + names[i] in dropped: ctx.check(not_(want[i]), 'no promised save is dropped')
        else: ctx.check(want[i], 'only promised saves are kept')
    ctx.reach('dropped' if dropped else 'kept')


def cases(tier):
    th = tier != 'quick'
    out = []
    for mask in range(1, 16):
        out.append(Case('classify 2 mask %d' % mask, c_classify, ('kept', 'dropped'), n=2, mask=mask, years=YEARS,
                        bounds='2 saves, arbitrary period starts for the kinds in mask %d' % mask))
        if th or bin(mask).count('1') < 3:
            out.append(Case('classify 3 mask %d' % mask, c_classify, ('kept', 'dropped'), n=3, mask=mask,
                            years=YEARS if th else (2019, 2020), weight=3,
                            bounds='3 saves, arbitrary period starts for the kinds in mask %d' % mask))
        if th:
            out.append(Case('classify 4 mask %d' % mask, c_classify, ('kept', 'dropped'), n=4, mask=mask,
                            years=(2019, 2020), weight=4,
                            bounds='4 saves, arbitrary period starts for the kinds in mask %d' % mask))
    for a in ARGSETS:
        nm = ','.join('%s=%s%s' % x for x in a)
        req = ('kept',) if a == ARGSETS[-1] else ('dropped', 'kept')
        out.append(Case('main %s' % nm, c_main, req if a != ARGSETS[-1] else ('kept',), n=5 if th else 4, args=a, pretend=False, weight=2, bounds='%d saves' % (5 if th else 4)))
        out.append(Case('pretend %s' % nm, c_main, req, n=2, args=a, pretend=True, bounds='2 saves'))
    return out
