"""Symbolic integers (exact: bit-vectors wide enough for their tracked
range, or mathematical integers) and booleans."""
import z3
from . import core
from .core import Unsupported, Inconclusive


# Results of pure operations, kept across the paths of a case: each path rebuilds the
# same terms, and building z3 terms dominates the run time otherwise.  Operands are
# kept alive by the entry, so their ids stay valid.
_cache = {}
_LIMIT = 300000

def memo2(op):
    def deco(f):
        def w(self, o):
            to = type(o)
            if to is int: k = (op, id(self), o)
            elif to is SymInt: k = (op, id(self), 'o', id(o))
            else: return f(self, o)
            e = _cache.get(k)
            if e is not None: return e[0]
            r = f(self, o)
            if len(_cache) > _LIMIT: _cache.clear()
            _cache[k] = (r, self, o)
            return r
        return w
    return deco


def width(lo, hi):
    return max((lo if lo >= 0 else ~lo).bit_length(),
               (hi if hi >= 0 else ~hi).bit_length()) + 1


def resize(t, w):
    n = t.size()
    if n == w:
        return t
    if n < w:
        return z3.SignExt(w - n, t)
    return z3.Extract(w - 1, 0, t)


def mk(t, lo, hi):
    if lo == hi:
        return lo
    assert lo < hi
    if not z3.is_int(t):
        t = resize(t, width(lo, hi))
    return SymInt(t, lo, hi)


def mkbool(t):
    if t is True or t is False:
        return t
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SymBool(t)


class SymBool:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __bool__(self):
        return core.cur.branch(self.t)
    def __and__(self, o):
        o = tobool(o)
        if o is True: return self
        if o is False: return False
        if o is NotImplemented: return o
        return SymBool(z3.And(self.t, o.t))
    __rand__ = __and__
    def __or__(self, o):
        o = tobool(o)
        if o is False: return self
        if o is True: return True
        if o is NotImplemented: return o
        return SymBool(z3.Or(self.t, o.t))
    __ror__ = __or__
    def __invert__(self): return SymBool(z3.Not(self.t))
    def __eq__(self, o):
        if isinstance(o, bool): return self if o else ~self
        if isinstance(o, SymBool): return SymBool(self.t == o.t)
        if isinstance(o, (int, SymInt)): return self.as_int() == o
        return False
    def __ne__(self, o): return not_(self == o)
    def __hash__(self):
        from .shim import _idhash, serial
        if _idhash[0]: return serial(self)
        return hash(bool(self))
    def as_int(self):
        return SymInt(z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    def __index__(self): return 1 if self else 0
    def __int__(self): return 1 if self else 0
    def __add__(self, o): return self.as_int() + o
    __radd__ = __add__
    def __mul__(self, o): return self.as_int() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self.as_int() - o
    def __rsub__(self, o): return o - self.as_int()
    def __lshift__(self, o): return self.as_int() << o
    def __lt__(self, o): return self.as_int() < o
    def __gt__(self, o): return self.as_int() > o
    def __le__(self, o): return self.as_int() <= o
    def __ge__(self, o): return self.as_int() >= o
    def __repr__(self): return '<symbool>'


def tobool(o):
    if isinstance(o, (bool, SymBool)):
        return o
    if isinstance(o, int):
        return bool(o)
    return NotImplemented


def not_(b):
    """Logical negation without forking."""
    if isinstance(b, SymBool):
        k = ('not', id(b))
        e = _cache.get(k)
        if e is not None: return e[0]
        r = ~b
        _cache[k] = (r, b)
        return r
    return not b

def and_(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool): ts.append(x)
        elif not x: return False
    if not ts: return True
    if len(ts) == 1: return ts[0]
    k = ('and', *map(id, ts))
    e = _cache.get(k)
    if e is not None: return e[0]
    r = SymBool(z3.And([x.t for x in ts]))
    _cache[k] = (r, ts)
    return r

def or_(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool): ts.append(x)
        elif x: return True
    if not ts: return False
    if len(ts) == 1: return ts[0]
    k = ('or', *map(id, ts))
    e = _cache.get(k)
    if e is not None: return e[0]
    r = SymBool(z3.Or([x.t for x in ts]))
    _cache[k] = (r, ts)
    return r

def implies(a, b):
    return or_(not_(a), b)

def ite(c, a, b):
    """If-then-else over ints/SymInts without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, SymBool) or isinstance(b, SymBool) \
       or isinstance(a, bool) or isinstance(b, bool):
        return or_(and_(c, a), and_(~c, b))
    if type(a) in (int, SymInt) and type(b) in (int, SymInt):
        k = ('ite', id(c), (a,) if type(a) is int else id(a), (b,) if type(b) is int else id(b))
        e = _cache.get(k)
        if e is not None: return e[0]
        r = _ite(c, a, b)
        _cache[k] = (r, c, a, b)
        return r
    return _ite(c, a, b)

def _ite(c, a, b):
    a, b = lift(a), lift(b)
    if a is b: return a
    lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
    if z3.is_int(a.t) or z3.is_int(b.t):
        return mk(z3.If(c.t, a.as_math(), b.as_math()), lo, hi)
    w = width(lo, hi)
    return mk(z3.If(c.t, resize(a.t, w), resize(b.t, w)), lo, hi)


def lift(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    x = int(x)
    return SymInt(z3.BitVecVal(x, width(x, x)), x, x)


def concretize(v, limit=4096):
    """Fork over the feasible values of v."""
    if isinstance(v, SymBool):
        return bool(v)
    if not isinstance(v, SymInt):
        return v
    ctx = core.cur
    n = 0
    while True:
        if v.hi - v.lo <= 64:
            for x in range(v.lo, v.hi):
                if v == x:
                    return x
            return v.hi
        # replay determinism: the guess must be recorded
        guess = ctx_guess(ctx, v)
        if v == guess:
            return guess
        n += 1
        if n > limit:
            raise Inconclusive('too many values to enumerate')


def ctx_guess(ctx, v):
    if ctx.pos < len(ctx.trail):
        d = ctx.trail[ctx.pos]
        ctx.pos += 1
        if not isinstance(d.taken, tuple):
            raise Inconclusive('nondeterministic execution: guess expected')
        return d.taken[0]
    m = ctx._need_model()
    g = v.value_in(m)
    ctx.trail.append(core.Decision(None, (g,), False, False, None))
    ctx.pos += 1
    return g


def _coerce(o):
    if isinstance(o, SymInt): return o
    if isinstance(o, SymBool): return o.as_int()
    if isinstance(o, int): return lift(o)
    return None


class SymInt:
    # prov: (x, c, y) when the value is known to be x * c + y, 0 <= y < c
    # orig: (n, k) when the value is byte k (0 the lowest) of n
    # negof: n when the value is -n
    __slots__ = ('t', 'lo', 'hi', 'prov', 'orig', 'negof')
    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi
        self.prov = self.orig = self.negof = None

    def value_in(self, m):
        if z3.is_int(self.t):
            return m.eval(self.t, model_completion=True).as_long()
        return m.eval(self.t, model_completion=True).as_signed_long()

    def as_math(self):
        if z3.is_int(self.t): return self.t
        if z3.is_bv_value(self.t): return z3.IntVal(self.t.as_signed_long())
        return z3.BV2Int(self.t, is_signed=True)
    def as_bv(self, w):
        if z3.is_int(self.t):
            return z3.Int2BV(self.t, w)
        return resize(self.t, w)

    def _bin(self, o, lo, hi, fbv, fint):
        if z3.is_int(self.t) or z3.is_int(o.t):
            return mk(fint(self.as_math(), o.as_math()), lo, hi)
        w = max(width(lo, hi), self.t.size(), o.t.size())
        return mk(fbv(resize(self.t, w), resize(o.t, w)), lo, hi)

    @memo2('+')
    def __add__(self, o):
        if isinstance(o, float): raise Unsupported('float arithmetic')
        o = _coerce(o)
        if o is None: return NotImplemented
        if o.lo == o.hi == 0: return self
        r = self._bin(o, self.lo + o.lo, self.hi + o.hi,
                      lambda a, b: a + b, lambda a, b: a + b)
        if isinstance(r, SymInt):
            for a, b in ((self, o), (o, self)):
                if a.prov and a.prov[2] == 0 and type(a.prov[2]) is int and b.lo >= 0 and b.hi < a.prov[1]:
                    r.prov = (a.prov[0], a.prov[1], b)
        return r
    __radd__ = __add__
    @memo2('-')
    def __sub__(self, o):
        if isinstance(o, float): raise Unsupported('float arithmetic')
        o = _coerce(o)
        if o is None: return NotImplemented
        if o.lo == o.hi == 0: return self
        return self._bin(o, self.lo - o.hi, self.hi - o.lo,
                         lambda a, b: a - b, lambda a, b: a - b)
    def __rsub__(self, o):
        o = _coerce(o)
        if o is None: return NotImplemented
        return o - self
    @memo2('*')
    def __mul__(self, o):
        if isinstance(o, (bytes, str, list, tuple)) or hasattr(o, 'els'):
            return o * concretize(self)
        o2c = o
        o2 = _coerce(o)
        if o2 is None: return NotImplemented
        o = o2
        c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        r = self._bin(o, min(c), max(c), lambda a, b: a * b, lambda a, b: a * b)
        if isinstance(r, SymInt) and r is not self and r is not o:
            if type(o2c) is int and o2c > 1: r.prov = (self, o2c, 0)
        return r
    __rmul__ = __mul__
    def __neg__(self):
        if self.negof is not None: return self.negof
        r = 0 - self
        if type(r) is SymInt and r is not self: r.negof = self
        return r
    def __pos__(self): return self
    def __invert__(self): return -1 - self
    def __abs__(self):
        if self.lo >= 0: return self
        return ite(self < 0, -self, self)

    def _divmod(self, o):
        if isinstance(o, SymInt):
            if o.lo <= 0 <= o.hi:
                if o == 0:
                    raise ZeroDivisionError('integer division or modulo by zero')
                # o != 0 now known on this path
            ctx = core.cur
            if o.lo < 0:
                o = o if o > 0 else None
                if o is None: raise Unsupported('division by negative symbolic')
            # a small quotient is settled by cases, which keeps the conditions linear
            if self >= 0:
                for q in range(9):
                    if self < (q + 1) * o: return q, self - q * o
            olo = max(1, o.lo)
            qlo = min(self.lo // olo, self.lo // o.hi)
            qhi = max(self.hi // olo, self.hi // o.hi)
            math = z3.is_int(self.t) or z3.is_int(o.t)
            q = ctx.fresh('q', qlo, qhi, math=math)
            r = ctx.fresh('r', 0, o.hi - 1, math=math)
            ctx.define(core._raw(and_(q * o + r == self, r < o)))
            return q, r
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            q, r = (-self)._divmod(-o)
            return q, -r
        if self.prov and self.prov[1] == o:
            return self.prov[0], self.prov[2]
        if z3.is_int(self.t):
            return (mk(self.t / o, self.lo // o, self.hi // o),
                    mk(self.t % o, 0, o - 1) if not (self.lo // o == self.hi // o)
                    else self - (self.lo // o) * o)
        if self.lo // o == self.hi // o:
            q = self.lo // o
            return q, self - q * o
        if o & (o - 1) == 0:
            k = o.bit_length() - 1
            return self >> k, self & (o - 1)
        # equal terms get the same quotient (z3 shares equal terms)
        ctx = core.cur
        key = (self.t.get_id(), self.lo, self.hi, o)
        e = ctx.divs.get(key)
        if e is not None: return e[0], e[1]
        q = ctx.fresh('q', self.lo // o, self.hi // o)
        r = ctx.fresh('r', 0, o - 1)
        ctx.define(core._raw(q * o + r == self))
        ctx.divs[key] = (q, r, self.t)
        return q, r
    def __divmod__(self, o):
        if isinstance(o, float): raise Unsupported('float division')
        if isinstance(o, bool): o = int(o)
        return self._divmod(o)
    def __rdivmod__(self, o): return lift(o)._divmod(self)
    def __floordiv__(self, o): return divmod(self, o)[0]
    def __mod__(self, o): return divmod(self, o)[1]
    def __rfloordiv__(self, o): return lift(o)._divmod(self)[0]
    def __rmod__(self, o):
        if not isinstance(o, int): return NotImplemented
        return lift(o)._divmod(self)[1]
    def __truediv__(self, o): raise Unsupported('true division')
    __rtruediv__ = __truediv__
    def __float__(self): raise Unsupported('float of symbolic int')
    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o): r = self * r
            return r
        return concretize(self) ** o
    def __rpow__(self, o): return o ** concretize(self)

    def _bits(self, o, op):
        if z3.is_int(self.t) or z3.is_int(o.t):
            return self._bits_math(o, op)
        if self.lo >= 0 and o.lo >= 0:
            m = (1 << max(self.hi.bit_length(), o.hi.bit_length())) - 1
            lo, hi = {'&': (0, min(self.hi, o.hi)), '|': (max(self.lo, o.lo), m),
                      '^': (0, m)}[op]
        elif op == '&' and (self.lo >= 0 or o.lo >= 0):
            lo, hi = 0, (self.hi if self.lo >= 0 else o.hi)
        else:
            w = max(width(self.lo, self.hi), width(o.lo, o.hi))
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        f = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b}[op]
        return self._bin(o, lo, hi, f, None)
    def _bits_math(self, o, op):
        if op == '&':
            a, b = (self, o) if o.lo == o.hi else (o, self)
            if b.lo == b.hi and b.lo >= 0 and b.lo & (b.lo + 1) == 0:
                return a % (b.lo + 1)
        w = max(width(self.lo, self.hi), width(o.lo, o.hi))
        a = SymInt(self.as_bv(w), self.lo, self.hi)
        b = SymInt(o.as_bv(w), o.lo, o.hi)
        return a._bits(b, op)
    @memo2('&')
    def __and__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else self._bits(o, '&')
    __rand__ = __and__
    @memo2('|')
    def __or__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else self._bits(o, '|')
    __ror__ = __or__
    @memo2('^')
    def __xor__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else self._bits(o, '^')
    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            return _shl(self, o)
        if o < 0: raise ValueError('negative shift count')
        return self * (1 << o)
    def __rlshift__(self, o):
        return _shl(lift(o), self)
    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = concretize(o)
        if o < 0: raise ValueError('negative shift count')
        if o == 0: return self
        k = ('>>', id(self), o)
        e = _cache.get(k)
        if e is not None: return e[0]
        r = self._rshift(o)
        _cache[k] = (r, self)
        return r
    def _rshift(self, o):
        if z3.is_int(self.t):
            return mk(self.t / (1 << o), self.lo >> o, self.hi >> o)
        w = self.t.size()
        if o >= w: o = w - 1
        return mk(z3.Extract(w - 1, o, self.t) if w - o > 0 else self.t,
                  self.lo >> o, self.hi >> o)
    def __rrshift__(self, o):
        return o >> concretize(self)

    def _cmp(self, o, op):
        if isinstance(o, float):
            if o == float('inf'): return op in ('<', '<=', '!=')
            if o == float('-inf'): return op in ('>', '>=', '!=')
            if o == int(o): o = int(o)
            else: raise Unsupported('comparison with float')
        o = _coerce(o)
        if o is None:
            return NotImplemented
        a, b = self, o
        if op == '<':
            if a.hi < b.lo: return True
            if a.lo >= b.hi: return False
        elif op == '<=':
            if a.hi <= b.lo: return True
            if a.lo > b.hi: return False
        elif op == '==':
            if a.hi < b.lo or a.lo > b.hi: return False
            if a is b: return True
        if z3.is_int(a.t) or z3.is_int(b.t):
            x, y = a.as_math(), b.as_math()
        else:
            w = max(a.t.size(), b.t.size())
            x, y = resize(a.t, w), resize(b.t, w)
        if op == '<': return mkbool(x < y)
        if op == '<=': return mkbool(x <= y)
        return mkbool(x == y)
    @memo2('<')
    def __lt__(self, o): return self._cmp(o, '<')
    @memo2('<=')
    def __le__(self, o): return self._cmp(o, '<=')
    @memo2('>')
    def __gt__(self, o):
        if isinstance(o, float): return not self._cmp(o, '<=')
        o = _coerce(o)
        return NotImplemented if o is None else o._cmp(self, '<')
    @memo2('>=')
    def __ge__(self, o):
        if isinstance(o, float): return not self._cmp(o, '<')
        o = _coerce(o)
        return NotImplemented if o is None else o._cmp(self, '<=')
    @memo2('==')
    def __eq__(self, o):
        if type(o) is SymInt and self.prov and o.prov and self.prov[1] == o.prov[1] and o is not self:
            # x * c + y has exactly one such decomposition
            return and_(self.prov[0] == o.prov[0], self.prov[2] == o.prov[2])
        r = self._cmp(o, '==') if not isinstance(o, float) else False
        return False if r is NotImplemented else r
    @memo2('!=')
    def __ne__(self, o): return not_(self == o)
    def __hash__(self):
        from .shim import _idhash, serial
        if _idhash[0]: return serial(self)
        return hash(concretize(self))
    def __bool__(self): return bool(self != 0)
    def __index__(self): return concretize(self)
    def __int__(self): return concretize(self)
    def __trunc__(self): return self
    def __floor__(self): return self
    def __repr__(self): return '<symint %d..%d>' % (self.lo, self.hi)
    def __format__(self, spec): return '<symint>'
    def bit_length(self):
        w = max(abs(self.lo), abs(self.hi)).bit_length()
        a = abs(self)
        r = 0
        for k in range(w):
            r = ite(a >= (1 << k), k + 1, r)
        return r
    def to_bytes(self, length, byteorder='big', signed=False):
        from .seq import SymBytes
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed \
            else (0, (1 << (8 * length)) - 1)
        if self < lo: raise OverflowError("can't convert negative int to unsigned" if not signed else 'int too big to convert')
        if self > hi: raise OverflowError('int too big to convert')
        els = byte_els(self, length)
        if byteorder == 'big': els.reverse()
        return SymBytes(els)
    @property
    def real(self): return self


def byte_els(a, n):
    """The n bytes of a, lowest first."""
    els = [(a >> (8 * i)) & 0xff for i in range(n)]
    for i, e in enumerate(els):
        if type(e) is SymInt and e.orig is None and e is not a: e.orig = (a, i)
    return els


def _shl(a, s):
    if s.lo < 0:
        if s < 0: raise ValueError('negative shift count')
    if s.hi > 4096:
        if s > 256: raise Unsupported('large symbolic shift')
    hi = min(s.hi, 256) if s.hi > 4096 else s.hi
    lo = max(s.lo, 0)
    if a.lo < 0:
        rlo = a.lo << hi
    else:
        rlo = a.lo << lo
    rhi = a.hi << hi if a.hi > 0 else a.hi << lo
    w = max(width(rlo, rhi), s.t.size())
    return mk(resize(a.t, w) << resize(s.t, w), rlo, rhi)
