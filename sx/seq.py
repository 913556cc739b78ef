"""Symbolic byte strings and text: concrete length, symbolic elements."""
import z3
from . import core
from .core import Unsupported
from .num import SymInt, SymBool, and_, or_, not_, ite, concretize, mkbool, lift

WS = b' \t\n\r\x0b\x0c'


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, _Seq))


class _Seq:
    __slots__ = ('els',)
    kind = None     # bytes or str
    def __init__(self, els):
        self.els = tuple(els)

    # -- construction helpers
    @classmethod
    def lift(cls, x):
        if isinstance(x, cls):
            return x
        if cls is SymBytes:
            if isinstance(x, (bytes, bytearray)): return cls(x)
            if isinstance(x, memoryview): return cls(bytes(x))
            if hasattr(x, 'getvalue_sym'): return x.getvalue_sym()
            if isinstance(x, (int, SymInt, str, SymStr, type(None))) or not hasattr(x, '__len__'):
                raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)
            try:
                return cls(bytes(x))
            except TypeError:
                raise
        if isinstance(x, str): return cls([ord(c) for c in x])
        raise TypeError("must be str, not %s" % type(x).__name__)

    @classmethod
    def norm(cls, els):
        """Collapse to a plain bytes/str when every element is concrete."""
        els = tuple(els)
        if all(type(e) is int for e in els):
            return bytes(els) if cls is SymBytes else ''.join(map(chr, els))
        return cls(els)

    def __len__(self): return len(self.els)
    def __bool__(self): return len(self.els) > 0
    def __hash__(self):
        from .shim import _idhash, serial
        if _idhash[0]: return serial(self)
        return hash(self._native())
    def _native(self):
        els = [concretize(e) for e in self.els]
        return bytes(els) if self.kind is bytes else ''.join(map(chr, els))
    def __repr__(self): return '<%s len %d>' % (type(self).__name__, len(self.els))
    def __format__(self, spec): return '<sym>'
    def __str__(self): return '<sym>'

    def _one(self, e):
        raise NotImplementedError

    def __iter__(self):
        for e in self.els:
            yield self._one(e)

    def __getitem__(self, i):
        if isinstance(i, slice):
            f = lambda v: concretize(v) if isinstance(v, (SymInt, SymBool)) else v
            return self.norm(self.els[slice(f(i.start), f(i.stop), f(i.step))])
        if isinstance(i, SymInt):
            n = len(self.els)
            if i >= n: raise IndexError('index out of range')
            if i < -n: raise IndexError('index out of range')
            if i.lo < 0:
                if i < 0: i = i + n
            r = self.els[-1] if n else 0
            for k in range(n - 2, -1, -1):
                r = ite(i == k, self.els[k], r)
            return self._one(r)
        return self._one(self.els[i])

    def __add__(self, o):
        try: o = self.lift(o)
        except TypeError: return NotImplemented
        return self.norm(self.els + o.els)
    def __radd__(self, o):
        try: o = self.lift(o)
        except TypeError: return NotImplemented
        return self.norm(o.els + self.els)
    def __mul__(self, n): return self.norm(self.els * concretize(n))
    __rmul__ = __mul__

    def eq(self, o):
        """Equality without forking (bool or SymBool)."""
        try: o = self.lift(o)
        except TypeError: return False
        if len(o.els) != len(self.els): return False
        cs = []
        for a, b in zip(self.els, o.els):
            c = (a == b)
            if c is False: return False
            if c is not True: cs.append(c)
        return and_(*cs)
    def __eq__(self, o): return self.eq(o)
    def __ne__(self, o): return not_(self.eq(o))

    def _lt(self, o, orequal):
        """Lexicographic comparison as one formula."""
        a, b = self.els, o.els
        n = min(len(a), len(b))
        if len(a) < len(b): r = True
        elif len(a) > len(b): r = False
        else: r = orequal
        for i in range(n - 1, -1, -1):
            r = or_(a[i] < b[i], and_(a[i] == b[i], r))
        return r
    def _cmparg(self, o):
        try: return self.lift(o)
        except TypeError: return None
    def __lt__(self, o):
        o = self._cmparg(o)
        return NotImplemented if o is None else self._lt(o, False)
    def __le__(self, o):
        o = self._cmparg(o)
        return NotImplemented if o is None else self._lt(o, True)
    def __gt__(self, o):
        o = self._cmparg(o)
        return NotImplemented if o is None else o._lt(self, False)
    def __ge__(self, o):
        o = self._cmparg(o)
        return NotImplemented if o is None else o._lt(self, True)

    # -- searching
    def _at(self, sub, i):
        """Condition that sub (lifted) occurs at index i."""
        return and_(*[x == y for x, y in zip(self.els[i:i + len(sub.els)], sub.els)]) \
            if i + len(sub.els) <= len(self.els) else False

    def _range(self, start, end):
        n = len(self.els)
        s, e, _ = slice(None if start is None else concretize(start),
                        None if end is None else concretize(end)).indices(n)
        return s, e

    def _lift_sub(self, sub):
        if self.kind is bytes and isinstance(sub, (int, SymInt)) and not isinstance(sub, bool):
            return SymBytes([sub])
        return self.lift(sub)

    def find(self, sub, start=None, end=None):
        if start is not None and not isinstance(start, SymInt) and start > len(self.els):
            return -1
        s, e = self._range(start, end)
        sub = self._lift_sub(sub)
        for i in range(s, e - len(sub.els) + 1):
            if self._at(sub, i): return i
        return -1
    def rfind(self, sub, start=None, end=None):
        s, e = self._range(start, end)
        sub = self._lift_sub(sub)
        for i in range(e - len(sub.els), s - 1, -1):
            if self._at(sub, i): return i
        return -1
    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0: raise ValueError('subsection not found')
        return r
    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0: raise ValueError('subsection not found')
        return r
    def contains(self, sub):
        """Membership without forking."""
        sub = self._lift_sub(sub)
        return or_(*[self._at(sub, i) for i in range(len(self.els) - len(sub.els) + 1)])
    def __contains__(self, sub): return bool(self.contains(sub))
    def count(self, sub, start=None, end=None):
        s, e = self._range(start, end)
        sub = self._lift_sub(sub)
        if len(sub) == 1:
            r = 0
            for i in range(s, e):
                r = r + ite(self._at(sub, i), 1, 0)
            return r
        n, i = 0, s
        while i <= e - len(sub):
            if self._at(sub, i):
                n += 1
                i += max(1, len(sub))
            else:
                i += 1
        return n
    def startswith(self, pre, start=None, end=None):
        if isinstance(pre, tuple):
            return or_(*[self.startswith(p, start, end) for p in pre])
        s, e = self._range(start, end)
        pre = self.lift(pre)
        if e - s < len(pre): return False
        return self._at(pre, s)
    def endswith(self, suf, start=None, end=None):
        if isinstance(suf, tuple):
            return or_(*[self.endswith(p, start, end) for p in suf])
        s, e = self._range(start, end)
        suf = self.lift(suf)
        if e - s < len(suf): return False
        return self._at(suf, e - len(suf))
    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self
    def removesuffix(self, p):
        return self[:-len(p)] if len(p) and self.endswith(p) else self

    def _isin(self, e, chars):
        return or_(*[e == c for c in chars])
    def _chars(self, chars):
        return WS_ELS if chars is None else self.lift(chars).els
    def lstrip(self, chars=None):
        cs = self._chars(chars)
        i = 0
        while i < len(self.els) and self._isin(self.els[i], cs): i += 1
        return self.norm(self.els[i:])
    def rstrip(self, chars=None):
        cs = self._chars(chars)
        i = len(self.els)
        while i > 0 and self._isin(self.els[i - 1], cs): i -= 1
        return self.norm(self.els[:i])
    def strip(self, chars=None):
        r = self.lstrip(chars)
        return self.lift(r).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        n = len(self.els)
        if sep is None:
            i = 0
            while True:
                while i < n and self._isin(self.els[i], WS_ELS): i += 1
                if i >= n: break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(self.lift(self.norm(self.els[i:])).rstrip())
                    break
                j = i
                while j < n and not self._isin(self.els[j], WS_ELS): j += 1
                out.append(self.norm(self.els[i:j]))
                i = j
            return out
        sep = self.lift(sep)
        if not len(sep): raise ValueError('empty separator')
        start = i = 0
        while i <= n - len(sep):
            if maxsplit >= 0 and len(out) >= maxsplit: break
            if self._at(sep, i):
                out.append(self.norm(self.els[start:i]))
                i += len(sep)
                start = i
            else:
                i += 1
        out.append(self.norm(self.els[start:]))
        return out
    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0: return self.split(sep)
        if sep is None: raise Unsupported('rsplit(None, n)')
        sep = self.lift(sep)
        out, end, i = [], len(self.els), len(self.els) - len(sep)
        while i >= 0 and len(out) < maxsplit:
            if self._at(sep, i):
                out.append(self.norm(self.els[i + len(sep):end]))
                end = i
                i -= len(sep)
            else:
                i -= 1
        out.append(self.norm(self.els[:end]))
        out.reverse()
        return out
    def splitlines(self, keepends=False):
        if self.kind is not bytes: raise Unsupported('str.splitlines')
        out, start, i, n = [], 0, 0, len(self.els)
        while i < n:
            if or_(self.els[i] == 10, self.els[i] == 13):
                j = i + 1
                if self.els[i] == 13 and j < n and self.els[j] == 10: j += 1
                out.append(self.norm(self.els[start:(j if keepends else i)]))
                start = i = j
            else:
                i += 1
        if start < n: out.append(self.norm(self.els[start:]))
        return out
    def partition(self, sep):
        i = self.find(sep)
        e = self.norm(())
        if i < 0: return self.norm(self.els), e, e
        return self.norm(self.els[:i]), sep, self.norm(self.els[i + len(sep):])
    def rpartition(self, sep):
        i = self.rfind(sep)
        e = self.norm(())
        if i < 0: return e, e, self.norm(self.els)
        return self.norm(self.els[:i]), sep, self.norm(self.els[i + len(sep):])
    def replace(self, old, new, count=-1):
        old, new = self.lift(old), self.lift(new)
        if not len(old): raise Unsupported('replace of empty')
        out, i, n, k = [], 0, len(self.els), 0
        while i < n:
            if (count < 0 or k < count) and self._at(old, i):
                out.extend(new.els)
                i += len(old)
                k += 1
            else:
                out.append(self.els[i])
                i += 1
        return self.norm(out)
    def join(self, parts):
        out = []
        first = True
        for x in parts:
            x = self.lift(x)
            if not first: out.extend(self.els)
            first = False
            out.extend(x.els)
        return self.norm(out)
    def _all(self, pred):
        if not self.els: return False
        return and_(*[pred(e) for e in self.els])
    def isdigit(self): return self._all(lambda e: and_(e >= 48, e <= 57))
    def isalpha(self): return self._all(isalpha_el)
    def isalnum(self): return self._all(lambda e: or_(isalpha_el(e), and_(e >= 48, e <= 57)))
    def isspace(self): return self._all(lambda e: self._isin(e, WS_ELS))
    def lower(self):
        return self.norm([ite(and_(e >= 65, e <= 90), e + 32, e) for e in self.els])
    def upper(self):
        return self.norm([ite(and_(e >= 97, e <= 122), e - 32, e) for e in self.els])
    def zfill(self, n):
        return self.norm((48,) * (n - len(self.els)) + self.els)
    def ljust(self, n, fill=None):
        f = self.lift(fill).els if fill is not None else (32,)
        return self.norm(self.els + f * max(0, n - len(self.els)))
    def rjust(self, n, fill=None):
        f = self.lift(fill).els if fill is not None else (32,)
        return self.norm(f * max(0, n - len(self.els)) + self.els)
    def translate(self, table, delete=None):
        if table is None:
            d = self.lift(delete).els
            return self.norm([e for e in self.els if not self._isin(e, d)])
        d = self.lift(delete).els if delete else ()
        out = []
        for e in self.els:
            if d and self._isin(e, d): continue
            out.append(SymBytes(table)[e] if isinstance(e, SymInt) else table[e])
        return self.norm(out)
    def __mod__(self, args):
        from .fmt import percent
        return percent(self, args)
    def __rmod__(self, fmt):
        return NotImplemented


WS_ELS = tuple(WS)

def isalpha_el(e):
    return or_(and_(e >= 65, e <= 90), and_(e >= 97, e <= 122))


class SymBytes(_Seq):
    __slots__ = ()
    kind = bytes
    def _one(self, e): return e
    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('-', '').replace('_', '')
        out = []
        for e in self.els:
            if e < 128:
                out.append(e)
            elif enc in ('latin1', 'iso88591'):
                out.append(e)
            elif errors == 'surrogateescape' and enc == 'ascii':
                out.append(e + 0xdc00)
            elif enc == 'ascii':
                raise UnicodeDecodeError('ascii', b'?', 0, 1, 'ordinal not in range(128)')
            else:
                raise Unsupported('decoding non-ascii utf-8 symbolically')
        return SymStr.norm(out)
    def hex(self):
        return SymStr.norm(hexels(self.els))
    def tobytes(self): return self
    def __bytes__(self):
        return bytes(concretize(e) for e in self.els)
    def __buffer__(self, flags):
        raise Unsupported('symbolic bytes reached a native buffer consumer')


class SymStr(_Seq):
    __slots__ = ()
    kind = str
    def _one(self, e): return SymStr.norm([e])
    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('-', '').replace('_', '')
        out = []
        for e in self.els:
            if e < 128: out.append(e)
            elif enc in ('latin1', 'iso88591') and e < 256: out.append(e)
            elif errors == 'surrogateescape' and and_(e >= 0xdc80, e <= 0xdcff):
                out.append(e - 0xdc00)
            else: raise Unsupported('encoding non-ascii symbolic text')
        return SymBytes.norm(out)


def hexdigit(v):
    return ite(v < 10, v + 48, v + 87)

def hexels(els):
    out = []
    for e in els:
        out.append(hexdigit(e >> 4))
        out.append(hexdigit(e & 15))
    return out


class SymByteArray:
    """bytearray with symbolic contents."""
    def __init__(self, els=()):
        self.els = list(els)
    def __len__(self): return len(self.els)
    def __bool__(self): return bool(self.els)
    def __iter__(self): return iter(list(self.els))
    def _v(self): return SymBytes(self.els)
    def __getitem__(self, i):
        if isinstance(i, slice):
            f = lambda v: concretize(v) if isinstance(v, (SymInt, SymBool)) else v
            return SymByteArray(self.els[slice(f(i.start), f(i.stop), f(i.step))])
        return self._v()[i]
    def __setitem__(self, i, v):
        if isinstance(i, slice):
            f = lambda v: concretize(v) if isinstance(v, (SymInt, SymBool)) else v
            self.els[slice(f(i.start), f(i.stop), f(i.step))] = list(SymBytes.lift(v).els)
        else:
            if isinstance(v, SymInt):
                if v.lo < 0 or v.hi > 255:
                    if or_(v < 0, v > 255): raise ValueError('byte must be in range(0, 256)')
            elif not 0 <= v <= 255: raise ValueError('byte must be in range(0, 256)')
            self.els[concretize(i)] = v
    def __delitem__(self, i):
        if isinstance(i, slice):
            f = lambda v: concretize(v) if isinstance(v, (SymInt, SymBool)) else v
            del self.els[slice(f(i.start), f(i.stop), f(i.step))]
        else:
            del self.els[concretize(i)]
    def append(self, e): self.els.append(e)
    def extend(self, o): self.els.extend(SymBytes.lift(o).els if not isinstance(o, (list, tuple)) else o)
    def clear(self): self.els.clear()
    def __iadd__(self, o):
        self.els.extend(SymBytes.lift(o).els)
        return self
    def __add__(self, o): return SymByteArray(self.els + list(SymBytes.lift(o).els))
    def __radd__(self, o): return SymBytes.lift(o) + self._v()
    def __eq__(self, o): return self._v().eq(o)
    def __ne__(self, o): return not_(self._v().eq(o))
    def __hash__(self): raise TypeError("unhashable type: 'bytearray'")
    def getvalue_sym(self): return self._v()
    def __getattr__(self, name):
        if name.startswith('_'): raise AttributeError(name)
        return getattr(self._v(), name)
    def __buffer__(self, flags):
        if all(type(e) is int for e in self.els): return memoryview(bytes(self.els))
        raise Unsupported('symbolic bytearray reached a native buffer consumer')


class SymFile:
    """In-memory binary file holding symbolic bytes (BytesIO compatible)."""
    def __init__(self, data=b''):
        self.els = list(SymBytes.lift(data).els)
        self.pos = 0
        self.closed = False
    def _clip(self, n):
        rem = len(self.els) - self.pos
        if n is None: return rem
        if isinstance(n, SymInt):
            if n < 0: return rem
            if n >= rem: return rem
            return concretize(n)
        if n < 0: return rem
        return min(n, rem)
    def read(self, n=-1):
        n = max(0, self._clip(n))
        r = self.els[self.pos:self.pos + n]
        self.pos += n
        return SymBytes.norm(r)
    read1 = read
    def readinto(self, buf): raise Unsupported('readinto')
    def readline(self, limit=-1):
        i = self.pos
        while i < len(self.els):
            e = self.els[i]
            i += 1
            if e == 10: break
        r = self.els[self.pos:i]
        self.pos = i
        return SymBytes.norm(r)
    def __iter__(self):
        while True:
            l = self.readline()
            if not l: return
            yield l
    def write(self, data):
        d = SymBytes.lift(data).els
        if self.pos > len(self.els):
            self.els.extend([0] * (self.pos - len(self.els)))
        self.els[self.pos:self.pos + len(d)] = d
        self.pos += len(d)
        return len(d)
    def tell(self): return self.pos
    def seek(self, ofs, whence=0):
        ofs = concretize(ofs)
        if whence == 0: self.pos = ofs
        elif whence == 1: self.pos += ofs
        else: self.pos = len(self.els) + ofs
        return self.pos
    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.els[n:]
        return n
    def getvalue(self): return SymBytes.norm(self.els)
    def getvalue_sym(self): return SymBytes(self.els)
    def getbuffer(self): return SymBytes.norm(self.els)
    def flush(self): pass
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
