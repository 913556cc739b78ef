META = {
 'level': 'model_checking',
 'cbmc': 'cbmc_c28',
 'assumptions': [
  'ASCII texts of up to 6 characters (sizes, dates, --type int values), plus longer ones built around the units and '
  'range limits; floating point is modelled by exact rationals, which is exact for the at most 14 significant digits '
  'and one-digit exponents explored (values beyond 2**53 bytes or with longer mantissas are outside the bounds)',
  'the option parser is real apart from getopt, which is replaced by the already separated (option, value) pairs',
 ],
}
import re, subprocess, sys, time
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from sx.fmt import digit
from bup import helpers, git, options
from bup.helpers import parse_num, period_as_secs, parse_date_arg
from bup.config import ConfigError
import bup.cmd.split as cmd_split, bup.cmd.save as cmd_save

UNITS = {b'': 1, b'b': 1, b'k': 1 << 10, b'kb': 1 << 10, b'm': 1 << 20, b'mb': 1 << 20,
         b'g': 1 << 30, b'gb': 1 << 30, b't': 1 << 40, b'tb': 1 << 40}


def isdig(c): return and_(c >= 48, c <= 57)
def isws(c): return or_(and_(c >= 9, c <= 13), and_(c >= 28, c <= 32))


def decimal(t, wide):
    """The sign, digits, fraction (and, if wide, exponent) at the start of
    the bytes t: (numerator, denominator, length) or None."""
    i, n, neg = 0, len(t), False
    if i < n and or_(t[i] == 43, t[i] == 45):
        neg = bool(t[i] == 45); i += 1
    num, scale, nd = 0, 1, 0
    while i < n and isdig(t[i]):
        num = num * 10 + digit(t[i]); i += 1; nd += 1
    if i < n and t[i] == 46:
        i += 1
        while i < n and isdig(t[i]):
            num = num * 10 + digit(t[i]); scale *= 10; i += 1; nd += 1
    if not nd: return None
    if wide and i + 1 < n and or_(t[i] == 101, t[i] == 69):
        j, es = i + 1, 1
        if or_(t[j] == 43, t[j] == 45):
            if t[j] == 45: es = -1
            j += 1
        if j < n and isdig(t[j]):
            e = 0
            while j < n and isdig(t[j]):
                e = e * 10 + (t[j] - 48); j += 1
            for k in range(10):
                if e == k: e = k; break
            else: return 'big'
            if es > 0: num = num * 10 ** e
            else: scale *= 10 ** e
            i = j
    return (-num if neg else num), scale, i


def lower(c):
    return c + 32 if and_(c >= 65, c <= 90) else c


def size_spec(t, wide):
    """(numerator, denominator) of the documented size text, or None."""
    if wide:
        while t and isws(t[0]): t = t[1:]
    d = decimal(t, wide)
    if d is None or d == 'big': return d
    num, scale, i = d
    t = t[i:]
    while len(t) and isws(t[0]): t = t[1:]
    while len(t) and isws(t[len(t) - 1]): t = t[:len(t) - 1]
    if len(t) > 2: return None
    for u, m in UNITS.items():
        if len(u) == len(t) and and_(*[or_(t[k] == u[k], t[k] == u[k] - 32) for k in range(len(u))]):
            return num * m, scale
    return None


def trunc_is(ctx, r, num, den, what):
    """r is num/den with its fraction dropped"""
    ctx.check(r == (num // den if num >= 0 else -((-num) // den)), what)


def judge_size(ctx, text, f=parse_num):
    try: r = f(text)
    except (ValueError, OverflowError): r = None
    if r is None:
        ctx.check(size_spec(text, False) is None, 'a documented size is accepted')
        ctx.reach('refused')
        return
    s = size_spec(text, True)
    if s == 'big': return
    ctx.check(s is not None, 'a malformed size is refused')
    trunc_is(ctx, r, s[0], s[1], 'a size is converted exactly')
    ctx.reach('accepted')


ALPHA = bytes(range(128))

def c_size(ctx, n): judge_size(ctx, nobig(ctx, ctx.bytes('t', n, alphabet=ALPHA)))

def nobig(ctx, t):
    """no exponent with more than one digit"""
    for i in range(len(t) - 2):
        ctx.assume(not_(and_(or_(t[i] == 101, t[i] == 69), isdig(t[i + 1]), isdig(t[i + 2]))))
        if i + 3 < len(t):
            ctx.assume(not_(and_(or_(t[i] == 101, t[i] == 69), or_(t[i + 1] == 43, t[i + 1] == 45), isdig(t[i + 2]), isdig(t[i + 3]))))
    return t


def c_size_unit(ctx, digits, frac, units):
    """digits[.digits] <0-1 blanks> unit <0-1 further characters>"""
    t = ctx.bytes('d', digits, alphabet=b'0123456789')
    if frac: t = t + b'.' + ctx.bytes('f', frac, alphabet=b'0123456789')
    if ctx.flag('blank'): t = t + ctx.bytes('ws', 1, alphabet=ALPHA)
    t = t + ctx.bytes('u', units, alphabet=ALPHA)
    if ctx.flag('more'): t = t + ctx.bytes('tail', 1, alphabet=ALPHA)
    judge_size(ctx, nobig(ctx, t))


PERIODS = {b's': 1, b'min': 60, b'h': 3600, b'd': 86400, b'w': 7 * 86400, b'm': 31 * 86400, b'y': 366 * 86400}

def c_period(ctx, n):
    t = ctx.bytes('t', n)
    r = period_as_secs(t)
    i, mag = 0, 0
    while i < n and isdig(t[i]):
        mag = mag * 10 + digit(t[i]); i += 1
    want = None
    for u, m in PERIODS.items():
        if i and len(u) == n - i and and_(*[t[i + k] == u[k] for k in range(len(u))]): want = mag * m
    if r is None:
        ctx.check(want is None, 'a documented period is accepted')
        ctx.reach('refused')
        return
    if n == 7 and t == b'forever':
        ctx.check(r == float('inf'), 'forever is unlimited')
        ctx.reach('forever')
        return
    if want is None and t[n - 1] == 10:      # tolerated: a single trailing newline
        t = t[:n - 1]
        for u, m in PERIODS.items():
            if i and len(u) == n - 1 - i and and_(*[t[i + k] == u[k] for k in range(len(u))]): want = mag * m
    ctx.check(want is not None, 'a malformed period is refused')
    ctx.check(r == want, 'a period is converted exactly')
    ctx.reach('accepted')


def c_date(ctx, n):
    t = nobig(ctx, ctx.bytes('t', n, alphabet=b'0123456789+-.eE_ infatyx'))
    text = t.decode('ascii')
    try: r = parse_date_arg(b'--date', text)
    except ValueError: r = None
    d = decimal(t, True)
    if d == 'big': return
    if r is None:
        ctx.check(d is None or d[2] != n, 'a documented date is accepted')
        ctx.reach('refused')
        return
    if d is not None and d[2] == n:
        ctx.check(eqfrac(ctx, r, d), 'a date is converted exactly')
        ctx.reach('accepted')


def eqfrac(ctx, r, d):
    num, den = d[0], d[1]
    if ctx.symbolic: return r * den == num
    return r == num / den


def strtoimax_int(ctx, t):
    """The value git gives a --type int text, or None (out of range/invalid)."""
    i, n, neg = 0, len(t), False
    while i < n and or_(t[i] == 32, and_(t[i] >= 9, t[i] <= 13)): i += 1
    if i < n and or_(t[i] == 43, t[i] == 45):
        neg = bool(t[i] == 45); i += 1
    base, nd, mag = 10, 0, 0
    if i < n and t[i] == 48:
        if i + 2 < n and or_(t[i + 1] == 120, t[i + 1] == 88) and digval(t[i + 2], 16) is not None:
            base = 16; i += 2
        else: base = 8
    while i < n:
        v = digval(t[i], base)
        if v is None: break
        mag = mag * base + v; i += 1; nd += 1
    if not nd: return None
    if i < n:
        if i != n - 1: return None
        for u, m in ((107, 1 << 10), (109, 1 << 20), (103, 1 << 30)):
            if or_(t[i] == u, t[i] == u - 32):
                mag = mag * m
                break
        else: return None
    if mag > (1 << 63) - 1: return None
    return -mag if neg else mag


def digval(c, base):
    if and_(c >= 48, c < 48 + min(base, 10)): return digit(c)
    if base == 16:
        if and_(c >= 97, c <= 102): return c - 87
        if and_(c >= 65, c <= 70): return c - 55
    return None


def git_int(t):
    p = subprocess.run(['git', 'config', '--file', '-', '--type', 'int', 'a.b'], capture_output=True,
                       input=b'[a]\n\tb = "' + t.replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"\n')
    return int(p.stdout) if p.returncode == 0 else None


def c_gitint(ctx, pre, n, alphabet):
    t = pre + ctx.bytes('t', n, alphabet=alphabet)
    want = strtoimax_int(ctx, t)
    if not ctx.symbolic:
        assert git_int(t) == want, ('oracle disagrees with git', t)
    try: r = git.parse_git_int(t)
    except ConfigError:
        ctx.check(want is None, 'an integer git accepts is accepted')
        ctx.reach('refused')
        return
    ctx.check(want is not None, 'an integer git rejects is refused')
    ctx.check(r == want, 'a git integer is converted exactly')
    ctx.reach('accepted')


class Fatal(Exception): pass

def with_options(mod, pairs, extra):
    """The module's real option specification and Options, with getopt's
    result given."""
    class Opts(options.Options):
        def __init__(self, spec):
            options.Options.__init__(self, spec, optfunc=lambda args, s, l: (list(pairs), list(extra)))
        def fatal(self, msg): raise Fatal()
    class O:
        Options = Opts
    patch(mod, 'options', O)
    patch(mod, 'main_repo_location', lambda remote, die: None)
    patch(mod, 'environ', {})


def c_option(ctx, cmd, option, n, kind):
    """The value of one numeric option arrives in that option and nowhere else."""
    mod = {'split': cmd_split, 'save': cmd_save}[cmd]
    t = ctx.bytes('t', n, alphabet=b'0123456789.kKmMbg- x')
    text = t.decode('ascii')
    base = [('--commit', '')]
    with_options(mod, base + [('--' + option, text)], ['src'])
    now = 1234567
    patch(time, 'time', lambda: now)
    try: opt, o = mod.opts_from_cmdline([b'bup', b'x'])
    except Fatal: opt = None
    if kind == 'date':
        d = decimal(t, True)
        ok = d is not None and d != 'big' and d[2] == n
        if opt is None:
            ctx.check(not ok, 'a valid date is accepted')
            ctx.reach('refused')
            return
        ctx.check(ok or strip_ok(t), 'an invalid date is refused')
        if ok: ctx.check(eqfrac(ctx, opt.date, d), 'the date given is used')
        ctx.reach('accepted')
    else:
        s = size_spec(t, False)
        if opt is None:
            ctx.check(s is None, 'a valid size is accepted')
            ctx.reach('refused')
            return
        s = size_spec(t, True)
        ctx.check(s is not None, 'an invalid size is refused')
        v = getattr(opt, option.replace('-', '_'))
        if v is None: v = 0
        trunc_is(ctx, v, s[0], s[1], 'the size given is used for that option')
        ctx.reach('accepted')
    for name in ('max_pack_size', 'max_pack_objects', 'fanout', 'bwlimit', 'smaller', 'date'):
        if name in opt._aliases and name != option.replace('-', '_'):
            v = getattr(opt, name)
            ctx.check(v == now if name == 'date' else not v, 'no other numeric option is changed')


def strip_ok(t):
    while len(t) and isws(t[0]): t = t[1:]
    while len(t) and isws(t[len(t) - 1]): t = t[:len(t) - 1]
    d = decimal(t, True)
    return d is not None and d != 'big' and d[2] == len(t)


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(1, 5 if q else 6):
        out.append(Case('size %d' % n, c_size, ('accepted', 'refused'), n=n, weight=3 * n,
                        bounds='parse_num of every %d character ASCII text' % n))
    for d, f, u in ((1, 0, 2), (1, 1, 1)) + (() if q else ((3, 0, 2), (1, 1, 2), (2, 1, 1))):
        out.append(Case('size unit %d.%d %d' % (d, f, u), c_size_unit, ('accepted', 'refused'), digits=d, frac=f, units=u,
                        weight=10, bounds='%d digits, %d decimals, a blank, %d unit characters, one more' % (d, f, u)))
    for n in range(1, 6 if q else 8):
        out.append(Case('period %d' % n, c_period, ('refused',) + (('accepted',) if n > 1 else ()), n=n,
                        weight=n, bounds='period_as_secs of every %d byte string' % n))
    if q: out.append(Case('period 7', c_period, ('forever', 'accepted'), n=7, weight=9, bounds='every 7 byte string'))
    for n in range(1, 5 if q else 6):
        out.append(Case('date %d' % n, c_date, ('accepted', 'refused'), n=n, weight=3 * n,
                        bounds='parse_date_arg of every %d character text of digits, + - . e _ blank and letters' % n))
    full = bytes(c for c in range(32, 127))
    for n in range(1, 4 if q else 5):
        out.append(Case('git int %d' % n, c_gitint, ('accepted', 'refused'), pre=b'', n=n, alphabet=full, weight=3 * n,
                        bounds='parse_git_int of every %d printable bytes' % n))
    edge = b'0123456789kKmMgG'
    for pre in (b'922337203685477580', b'-922337203685477580', b'858993459', b'-858993459', b'9007199254740',
                b'0x7fffffff', b'07777777777777777777', b'879609302220', b' +'):
        for n in (1, 2, 3):
            if q and n == 3 and pre not in (b'858993459', b'922337203685477580', b' +'): continue
            out.append(Case('git int %s+%d' % (pre.decode(), n), c_gitint, (), pre=pre, n=n, alphabet=edge, weight=2 * n,
                            bounds='%r followed by every %d digits or units' % (pre, n)))
    for cmd, names in (('split', ('max-pack-size', 'max-pack-objects', 'fanout', 'bwlimit')), ('save', ('smaller', 'bwlimit'))):
        for o in names:
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                out.append(Case('%s --%s %d' % (cmd, o, n), c_option, ('accepted', 'refused'), cmd=cmd, option=o, n=n, kind='size',
                                weight=4 * n, bounds='every %d character value' % n))
        for n in (1, 2) if q else (1, 2, 3):
            out.append(Case('%s --date %d' % (cmd, n), c_option, ('accepted', 'refused'), cmd=cmd, option='date', n=n, kind='date',
                            weight=4 * n, bounds='every %d character value' % n))
    return out
