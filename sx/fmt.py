"""% formatting for bytes and text with symbolic arguments; int parsing."""
import re as _re
import z3
from . import core
from .core import Unsupported
from .num import SymInt, SymBool, and_, or_, not_, ite, concretize
from .seq import _Seq, SymBytes, SymStr, is_sym

_spec = _re.compile(r'%(?:\((\w+)\))?([-+ 0#]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])')


def dec_els(x):
    """Decimal digits of x as element list."""
    if not isinstance(x, SymInt):
        return list(b'%d' % int(x))
    neg = False
    if x.lo < 0:
        if x < 0:
            neg = True
            x = -x
            if not isinstance(x, SymInt): return [45] + dec_els(x)
    n = 1
    while x.hi >= 10 ** n:
        if x.lo >= 10 ** n:
            n += 1
            continue
        if x < 10 ** n: break
        n += 1
    ctx = core.cur
    ds = [ctx.fresh('d', 0, 9, math=z3.is_int(x.t)) for _ in range(n)]
    tot = 0
    for d in ds:
        tot = tot * 10 + d
    ctx.define(core._raw(tot == x))
    els = [d + 48 for d in ds]
    return ([45] if neg else []) + els


def radix_els(x, base, upper=False):
    if not isinstance(x, SymInt):
        x = int(x)
        return list({16: b'%x', 8: b'%o'}[base] % x) if base != 2 else list(format(x, 'b').encode())
    neg = False
    if x < 0:
        neg, x = True, -x
        if not isinstance(x, SymInt): return [45] + radix_els(x, base)
    sh = {16: 4, 8: 3, 2: 1}[base]
    n = 1
    while x.hi >= 1 << (sh * n):
        if x < 1 << (sh * n): break
        n += 1
    els = []
    for i in range(n - 1, -1, -1):
        d = (x >> (sh * i)) & (base - 1)
        els.append(ite(d < 10, d + 48, d + (55 if upper else 87)))
    return ([45] if neg else []) + els


def percent(fmt, args):
    isb = isinstance(fmt, (bytes, SymBytes))
    if is_sym(fmt):
        raise Unsupported('symbolic format string')
    s = fmt.decode('latin-1') if isb else fmt
    cls = SymBytes if isb else SymStr
    if isinstance(args, dict):
        mapping, argl = args, []
    else:
        mapping = None
        argl = list(args) if isinstance(args, tuple) else [args]
    out, i, ai = [], 0, 0
    for m in _spec.finditer(s):
        out.extend(map(ord, s[i:m.start()]))
        i = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append(37)
            continue
        if width == '*':
            width = concretize(argl[ai]); ai += 1
        if prec == '*':
            prec = concretize(argl[ai]); ai += 1
        if key is not None:
            a = mapping[key.encode('latin-1') if isb else key]
        else:
            if ai >= len(argl): raise TypeError('not enough arguments for format string')
            a = argl[ai]; ai += 1
        if not is_sym(a):
            t = '%' + flags + (str(width) if width is not None else '') \
                + ('.' + str(prec) if prec is not None else '') + conv
            if isb:
                r = t.encode('latin-1') % ((a,) if not isinstance(a, dict) else (a,))
                out.extend(r)
            else:
                out.extend(map(ord, t % (a,)))
            continue
        if conv in 'sb' and isinstance(a, _Seq) and (a.kind is (bytes if isb else str)):
            els = list(a.els)
            if prec is not None: els = els[:int(prec)]
            els = _pad(els, flags, width, num=False)
        elif conv in 'di' or (conv == 's' and not isb and isinstance(a, SymInt)):
            els = _pad(dec_els(a if isinstance(a, SymInt) else a.as_int()), flags, width, num=True)
        elif conv in 'xX':
            els = radix_els(a, 16, conv == 'X')
            if '#' in flags: els = [48, ord(conv)] + els
            els = _pad(els, flags, width, num=True)
        elif conv == 'o':
            els = radix_els(a, 8)
            if '#' in flags: els = [48, 111] + els
            els = _pad(els, flags, width, num=True)
        elif conv == 'c':
            els = [a] if isinstance(a, SymInt) else list(a.els)
        elif conv in 'rsa' and not isb:
            els = list(map(ord, '<sym>'))
        elif conv in 'ra' and isb:
            els = list(b'<sym>')
        elif isb and conv == 's':
            raise TypeError('%b requires a bytes-like object')
        elif conv in 'di':
            raise TypeError('%d format: a real number is required')
        else:
            raise Unsupported('format %' + conv)
        out.extend(els)
    out.extend(map(ord, s[i:]))
    if mapping is None and ai < len(argl):
        raise TypeError('not all arguments converted during bytes formatting')
    return cls.norm(out)


def _pad(els, flags, width, num):
    if num and '+' in flags and True:
        if not (els and type(els[0]) is int and els[0] == 45):
            els = [43] + els
    if width is None: return els
    n = int(width) - len(els)
    if n <= 0: return els
    if '-' in flags: return els + [32] * n
    if num and '0' in flags:
        if els and type(els[0]) is int and els[0] in (43, 45):
            return [els[0]] + [48] * n + els[1:]
        return [48] * n + els
    return [32] * n + els


def parse_int(s, base=10):
    """int(s, base) for symbolic text or bytes."""
    err = lambda: ValueError('invalid literal for int() with base %d: <sym>' % base)
    base = concretize(base)
    els = list(s.strip().els) if isinstance(s.strip(), _Seq) else None
    if els is None:
        return int(s.strip(), base)
    neg = False
    if els and or_(els[0] == 43, els[0] == 45):
        if els[0] == 45: neg = True
        els = els[1:]
    if base == 0: raise Unsupported('int(sym, 0)')
    if base in (16, 8, 2) and len(els) > 2 and els[0] == 48:
        c = {16: (120, 88), 8: (111, 79), 2: (98, 66)}[base]
        if or_(els[1] == c[0], els[1] == c[1]):
            els = els[2:]
            if els and els[0] == 95: els = els[1:]
    if not els: raise err()
    tot = 0
    last_us = True
    for e in els:
        if base <= 10:
            isd = and_(e >= 48, e < 48 + base)
            v = e - 48
        else:
            isd = or_(and_(e >= 48, e <= 57), and_(e >= 97, e < 87 + base),
                      and_(e >= 65, e < 55 + base))
            v = ite(e <= 57, e - 48, ite(e >= 97, e - 87, e - 55))
        if isd:
            if isinstance(v, SymInt):
                lo, hi = max(v.lo, 0), min(v.hi, base - 1)
                if (lo, hi) != (v.lo, v.hi): v = _narrow(v, lo, hi)
            tot = tot * base + v
            last_us = False
        elif not last_us and e == 95:
            last_us = True
        else:
            raise err()
    if last_us: raise err()
    return -tot if neg else tot


def _narrow(v, lo, hi):
    """v is known (on this path) to lie in lo..hi: tighten its range."""
    from .num import mk
    if lo > hi: return v
    return mk(v.t, lo, hi)


class SymFloat:
    """A finite float whose exact value is num/den (symbolic num, concrete
    den); only operations that are exact, or truncate, are supported.  Sound
    for short decimals: with at most ~15 significant digits, rounding the
    decimal to a double can't move it across an integer multiple of 1/den."""
    __slots__ = ('num', 'den')
    def __init__(self, num, den=1): self.num, self.den = num, den
    @staticmethod
    def of(o):
        if isinstance(o, SymFloat): return o
        if isinstance(o, (int, SymInt)): return SymFloat(o)
        if isinstance(o, float) and o == o and abs(o) != float('inf'):
            n, d = o.as_integer_ratio()
            return SymFloat(n, d)
        return None
    def __mul__(self, o):
        o = SymFloat.of(o)
        if o is None: raise Unsupported('float arithmetic')
        return SymFloat(self.num * o.num, self.den * o.den)
    __rmul__ = __mul__
    def __neg__(self): return SymFloat(-self.num, self.den)
    def _bad(self, *a): raise Unsupported('float arithmetic')
    __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = _bad
    def _cmp(self, o, op):
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return op(0, o)
        f = SymFloat.of(o)
        if f is None: raise Unsupported('float comparison')
        return op(self.num * f.den, f.num * self.den)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, _Seq)): return False
        return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return not_(self == o)
    def __hash__(self): raise Unsupported('hash of float')
    def __bool__(self): return bool(self.num != 0)
    def trunc(self):
        n = self.num
        if self.den == 1: return n
        if n >= 0: return n // self.den
        return -((-n) // self.den)
    __trunc__ = trunc
    def __repr__(self): return '<symfloat>'
    def __format__(self, spec): return '<symfloat>'


def parse_float(s):
    """float(s) for symbolic text (ASCII): Python's literal grammar."""
    err = lambda: ValueError('could not convert string to float: <sym>')
    t = s.strip()
    els = list(t.els) if isinstance(t, _Seq) else None
    if els is None: return float(t)
    neg = False
    i, n = 0, len(els)
    def digit(k): return k < n and and_(els[k] >= 48, els[k] <= 57)
    if i < n and or_(els[i] == 43, els[i] == 45):
        neg = bool(els[i] == 45); i += 1
    def word(w):
        return n - i == len(w) and and_(*[or_(els[i + k] == c, els[i + k] == c - 32) for k, c in enumerate(w)])
    for w, v in ((b'inf', 'inf'), (b'infinity', 'inf'), (b'nan', 'nan')):
        if word(w): return float('-' + v if neg else v)
    def digits(i):
        """digits with single underscores between them"""
        ds = []
        while True:
            if digit(i): ds.append(els[i] - 48); i += 1
            elif ds and i + 1 < n and els[i] == 95 and digit(i + 1): i += 1
            else: return ds, i
    whole, i = digits(i)
    frac = []
    if i < n and els[i] == 46:
        frac, i = digits(i + 1)
    if not whole and not frac: raise err()
    exp = 0
    if i < n and or_(els[i] == 101, els[i] == 69):
        i += 1
        eneg = False
        if i < n and or_(els[i] == 43, els[i] == 45):
            eneg = bool(els[i] == 45); i += 1
        es, i = digits(i)
        if not es: raise err()
        for d in es: exp = exp * 10 + d
        if exp > 12: raise Unsupported('float exponent')
        exp = concretize(exp)
        if eneg: exp = -exp
    if i != n: raise err()
    if len(whole) + len(frac) > 14: raise Unsupported('float precision')
    tot = 0
    for d in whole + frac:
        if isinstance(d, SymInt): d = _narrow(d, max(0, d.lo), min(9, d.hi))
        tot = tot * 10 + d
    e10 = exp - len(frac)
    if neg: tot = -tot
    return SymFloat(tot * 10 ** e10) if e10 >= 0 else SymFloat(tot, 10 ** -e10)


def digit(e):
    """e - 48 for an element already known to be a decimal digit."""
    d = e - 48
    return _narrow(d, max(0, d.lo), min(9, d.hi)) if isinstance(d, SymInt) else d
