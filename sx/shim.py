"""Run-time dispatch layer the instrumented code calls into.

`call`, `callm`, `getitem`, `setitem`, `contains`, `mod`, `fstr` behave like
the plain Python operation whenever no symbolic value is involved; otherwise
they apply an exact symbolic model of the builtin, or stop with Unsupported."""
import binascii, builtins, functools, io, itertools, operator, os, re, stat, struct, sys, types, zlib
from . import core
from .core import Unsupported, Stop
from .num import (SymInt, SymBool, byte_els, and_, or_, not_, ite, concretize, lift, mk,
                  implies)
from .seq import (_Seq, SymBytes, SymStr, SymFile, SymByteArray, is_sym, hexels)
from .fmt import percent, parse_int, dec_els, radix_els, SymFloat, parse_float, digit

MODELS = {}          # id(callable) -> (callable, model)
METHODS = {}         # (type, name) -> model
_idhash = [False]
_serials = {}        # id -> (number, object): hashes that are the same on every replay of a path

def serial(o):
    r = _serials.get(id(o))
    if r is None: r = _serials[id(o)] = (len(_serials) * 2654435761 % (1 << 61), o)
    return r[0]


def model(*fns):
    def deco(m):
        for f in fns:
            MODELS[id(f)] = (f, m)
        return m
    return deco


def deepsym(x, depth=3):
    if isinstance(x, (SymInt, SymBool, _Seq, SymByteArray, SymFloat)):
        return True
    if depth and type(x) in (tuple, list):
        return any(deepsym(e, depth - 1) for e in x)
    if depth and isinstance(x, tuple):
        return any(deepsym(e, depth - 1) for e in x)
    return False


def anysym(args, kw=None):
    for a in args:
        if deepsym(a, 2): return True
    if kw:
        for a in kw.values():
            if deepsym(a, 2): return True
    return False


# ---------------------------------------------------------------- dicts, sets
_symdicts = {}       # id -> container holding symbolic keys

def reset():
    _symdicts.clear()
    _serials.clear()
    _sha_ids.clear()

def is_symdict(d):
    return id(d) in _symdicts

def mark(d):
    _symdicts[id(d)] = d

def _hashing():
    class H:
        def __enter__(s): s.p, _idhash[0] = _idhash[0], True
        def __exit__(s, *a): _idhash[0] = s.p
    return H()

def keyeq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        return and_(*[keyeq(x, y) for x, y in zip(a, b)])
    r = (a == b)
    return r if isinstance(r, (bool, SymBool)) else bool(r)

def dfind(d, k):
    """The stored key equal to k (forking), or raise KeyError."""
    for c in list(d):
        if c is k: return c
    for c in list(d):
        if keyeq(c, k): return c
    raise KeyError(k)

def _plain(d, k):
    return not deepsym(k) and not is_symdict(d)

def dget(d, k):
    if _plain(d, k): return d[k]
    try:
        c = dfind(d, k)
    except KeyError:
        if hasattr(type(d), '__missing__'):
            v = d.default_factory() if getattr(d, 'default_factory', None) else type(d).__missing__(d, k)
            dset(d, k, v)
            return v
        raise
    with _hashing(): return dict.__getitem__(d, c)

def dset(d, k, v):
    if _plain(d, k):
        d[k] = v
        return
    try:
        c = dfind(d, k)
    except KeyError:
        c = k
        if deepsym(k): mark(d)
    with _hashing(): d[c] = v

def ddel(d, k):
    if _plain(d, k):
        del d[k]
        return
    c = dfind(d, k)
    with _hashing(): del d[c]

def dhas(d, k):
    if _plain(d, k): return k in d
    try:
        dfind(d, k)
        return True
    except KeyError:
        return False

def sadd(s, k):
    if _plain(s, k):
        s.add(k)
        return
    if not dhas(s, k):
        if deepsym(k): mark(s)
        with _hashing(): s.add(k)

def sdiscard(s, k, must=False):
    if _plain(s, k):
        s.remove(k) if must else s.discard(k)
        return
    try:
        c = dfind(s, k)
    except KeyError:
        if must: raise
        return
    with _hashing(): s.remove(c)

_missing = object()

def dict_method(d, name, args, kw):
    if name == 'get':
        k, dflt = args[0], (args[1] if len(args) > 1 else kw.get('default'))
        try:
            c = dfind(d, k)
        except KeyError:
            return dflt
        with _hashing(): return dict.__getitem__(d, c)
    if name == 'setdefault':
        if dhas(d, args[0]): return dget(d, args[0])
        dset(d, args[0], args[1] if len(args) > 1 else None)
        return dget(d, args[0])
    if name == 'pop':
        if dhas(d, args[0]):
            v = dget(d, args[0])
            ddel(d, args[0])
            return v
        if len(args) > 1: return args[1]
        raise KeyError(args[0])
    if name == 'update':
        for a in args:
            its = list(a.items()) if hasattr(a, 'items') else list(a)
            for k, v in its: dset(d, k, v)
        for k, v in kw.items(): dset(d, k, v)
        return None
    if name == 'copy':
        r = d.copy()
        if is_symdict(d): mark(r)
        return r
    if name == '__contains__': return dhas(d, args[0])
    if name == '__getitem__': return dget(d, args[0])
    if name == '__setitem__': return dset(d, *args)
    return getattr(d, name)(*args, **kw)

def set_method(s, name, args, kw):
    if name == 'add': return sadd(s, args[0])
    if name == 'discard': return sdiscard(s, args[0])
    if name == 'remove': return sdiscard(s, args[0], True)
    if name == 'update':
        for a in args:
            for k in list(a): sadd(s, k)
        return None
    if name in ('union', 'copy', 'intersection', 'difference'):
        if name == 'intersection':
            return mkset([x for x in list(s) if all(contains(x, a) for a in args)])
        if name == 'difference':
            return mkset([x for x in list(s) if not any(contains(x, a) for a in args)])
        return mkset(itertools.chain(list(s), *args))
    if name == 'issubset': return all(contains(x, args[0]) for x in list(s))
    if name == 'issuperset': return all(dhas(s, x) for x in list(args[0]))
    if name == '__contains__': return dhas(s, args[0])
    return getattr(s, name)(*args, **kw)

def mkset(it, cls=set):
    its = list(it)
    if not any(deepsym(x) for x in its): return cls(its)
    r = set()
    for x in its: sadd(r, x)
    if cls is not set:
        with _hashing(): r2 = cls(r)
        mark(r2)
        return r2
    return r

def mkdict(*args, **kw):
    d = {}
    for a in args:
        for k, v in (list(a.items()) if hasattr(a, 'items') else list(a)):
            dset(d, k, v)
    for k, v in kw.items(): d[k] = v
    return d


# ---------------------------------------------------------------- operators
def getitem(x, i):
    t = type(x)
    if t is dict or (isinstance(x, dict) and t.__getitem__ is dict.__getitem__):
        return dget(x, i)
    if isinstance(i, (SymInt, SymBool)):
        if isinstance(i, SymBool): i = i.as_int()
        if t is bytes or t is bytearray or t is memoryview:
            return SymBytes(bytes(x))[i]
        if t is str:
            return SymStr.lift(x)[i]
        if t in (tuple, list) and x and all(isinstance(e, (int, SymInt)) and not isinstance(e, bool) for e in x):
            return SymBytes(x)[i]
        if t in (tuple, list):
            n = len(x)
            if i >= n or i < -n: raise IndexError('list index out of range')
            if n > 16 and i.lo >= 0 and all(e is None or isinstance(e, (bytes, str)) for e in x):
                return _table(x, i)
            return x[concretize(i)]
    return x[i]

def _table(x, i):
    """Index a table of text with a symbolic index: fork over the kinds of entry
    (None, text of some length) only, and merge the entries of a kind."""
    groups = {}
    for k, e in enumerate(x):
        groups.setdefault((type(e), len(e) if e is not None else 0), []).append(k)
    def member(ks):
        runs, cs = [], []
        for k in ks:
            if runs and runs[-1][1] == k - 1: runs[-1][1] = k
            else: runs.append([k, k])
        return or_(*[and_(i >= a, i <= b) for a, b in runs])
    gs = sorted(groups.items(), key=lambda g: (-len(g[1]), g[1][0]))
    for n, ((ty, ln), ks) in enumerate(gs):
        if n == len(gs) - 1 or member(ks):
            if ty is type(None): return None
            if len(ks) == 1: return x[ks[0]]
            els = []
            for j in range(ln):
                runs = []     # (first key, last key, value at first, slope)
                for k in ks:
                    v = x[k][j] if ty is bytes else ord(x[k][j])
                    if runs and runs[-1][1] == k - 1:
                        p = runs[-1]
                        if p[1] == p[0] and v - p[2] in (0, 1): p[3] = v - p[2]
                        if v == p[2] + (k - p[0]) * p[3]:
                            p[1] = k
                            continue
                    runs.append([k, k, v, 0])
                r = None
                for a, b, v, d in reversed(runs):
                    e = v if not d else (i - a) + v
                    r = e if r is None else ite(i <= b, e, r)
                els.append(SymInt(r.t, max(r.lo, 0), min(r.hi, 255 if ty is bytes else 0x10ffff))
                           if isinstance(r, SymInt) else r)
            return (SymBytes if ty is bytes else SymStr).norm(els)

def setitem(x, i, v):
    if isinstance(x, dict) and type(x).__setitem__ is dict.__setitem__:
        dset(x, i, v)
    elif isinstance(x, list) and isinstance(i, (SymInt, SymBool)):
        x[concretize(i)] = v
    else:
        x[i] = v

def delitem(x, i):
    if isinstance(x, dict) and type(x).__delitem__ is dict.__delitem__:
        ddel(x, i)
    else:
        del x[concretize(i) if isinstance(i, SymInt) else i]

_AUG = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul,
        'BitOr': operator.ior, 'BitAnd': operator.iand, 'BitXor': operator.ixor,
        'LShift': operator.ilshift, 'RShift': operator.irshift,
        'FloorDiv': operator.ifloordiv, 'Div': operator.itruediv,
        'Mod': lambda a, b: mod(a, b), 'Pow': operator.ipow,
        'MatMult': operator.imatmul}

def augitem(x, i, op, v):
    setitem(x, i, _AUG[op](getitem(x, i), v))

def mod(a, b):
    if isinstance(a, (bytes, str)) and deepsym(b, 2):
        return percent(a, b)
    if isinstance(a, (bytes, str)) and isinstance(b, dict) and any(is_sym(v) for v in b.values()):
        return percent(a, b)
    return a % b

def setop(a, b, op):
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) \
       and (is_symdict(a) or is_symdict(b)):
        if op == 'BitOr': return mkset(list(a) + list(b))
        if op == 'BitAnd': return mkset([x for x in list(a) if dhas(b, x)])
        if op == 'Sub': return mkset([x for x in list(a) if not dhas(b, x)])
        raise Unsupported('set operator')
    if op == 'BitOr': return a | b
    if op == 'BitAnd': return a & b
    return a - b

def contains(k, x):
    if isinstance(x, _Seq):
        return x.contains(k)
    t = type(x)
    if t in (bytes, bytearray, memoryview) and is_sym(k):
        return SymBytes.lift(x).contains(k)
    if t is str and is_sym(k):
        return SymStr.lift(x).contains(k)
    if isinstance(x, (dict, set, frozenset)):
        if deepsym(k) or is_symdict(x): return dhas(x, k)
        return k in x
    if t in (types.MappingProxyType,) : return k in x
    if isinstance(x, (type({}.keys()),)):
        return dhas(x.mapping, k) if False else any(keyeq(k, c) for c in list(x))
    if t in (tuple, list) and deepsym(k):
        return or_(*[keyeq(k, e) for e in x])
    if t is range and isinstance(k, SymInt) and x.step == 1:
        return and_(k >= x.start, k < x.stop)
    return k in x

def notcontains(k, x):
    return not_(contains(k, x))

def fstr(*parts):
    if not any(isinstance(p, tuple) and is_sym(p[0]) for p in parts):
        out = []
        for p in parts:
            if isinstance(p, str): out.append(p)
            else:
                v, conv, spec = p
                if conv == 's': v = str(v)
                elif conv == 'r': v = repr(v)
                elif conv == 'a': v = ascii(v)
                out.append(format(v, spec))
        return ''.join(out)
    els = []
    for p in parts:
        if isinstance(p, str):
            els.extend(map(ord, p)); continue
        v, conv, spec = p
        if isinstance(v, SymStr) and not spec and conv in (None, 's'):
            els.extend(v.els)
        elif isinstance(v, SymInt) and conv != 'a':
            if spec and spec[-1] not in 'dxXo': spec += 'd'
            els.extend(SymStr.lift(percent('%' + (spec or 'd'), (v,))).els)
        elif is_sym(v):
            els.extend(map(ord, '<sym>'))
        else:
            els.extend(map(ord, fstr(p)))
    return SymStr.norm(els)


# ---------------------------------------------------------------- calls
_SAFE = set()
def safe(*fs):
    for f in fs: _SAFE.add(f)
safe(len, sorted, min, max, sum, any, all, list, tuple, enumerate, zip, reversed,
     iter, next, range, abs, divmod, id, getattr, setattr, hasattr, callable,
     bool, slice, functools.partial, functools.reduce, itertools.chain, itertools.islice,
     itertools.chain.from_iterable, itertools.repeat, itertools.zip_longest,
     itertools.takewhile, itertools.dropwhile, itertools.groupby, itertools.tee,
     itertools.count, itertools.accumulate, itertools.filterfalse,
     itertools.product, itertools.combinations, itertools.starmap,
     operator.itemgetter, operator.attrgetter, operator.lt, operator.gt, operator.le,
     operator.ge, operator.eq, operator.ne, operator.add, operator.sub, operator.and_, operator.or_,
     super, object, property, staticmethod, classmethod, BaseException, Exception,
     print, types.SimpleNamespace)
import heapq, collections, contextlib, bisect
safe(heapq.heappush, heapq.heappop, heapq.heapify, heapq.heapreplace,
     heapq.heappushpop, heapq.merge, collections.deque, collections.namedtuple,
     bisect.bisect_left, bisect.bisect_right, bisect.insort, bisect.insort_left, bisect.insort_right)

_BUILTIN = (types.BuiltinFunctionType, types.MethodWrapperType,
            types.WrapperDescriptorType, types.MethodDescriptorType,
            types.ClassMethodDescriptorType)

_seqtypes = {bytes: SymBytes, str: SymStr}
_containers = (list, tuple, collections.deque)
_pat_t = re.Pattern
_struct_t = struct.Struct
_heap = 1 << 9


_remap = {bytes, str, dict, set, frozenset, list, tuple, collections.deque, re.Pattern, struct.Struct, bytearray, int}

def wrapfn(f):
    """Make f go through dispatch when native code calls it back."""
    if f is None: return None
    if id(f) in MODELS or isinstance(f, _BUILTIN) or (isinstance(f, type) and not f.__flags__ & _heap):
        return lambda *a, **k: call(f, *a, **k)
    return f


_frameworks = {'builtins', 'contextlib', 'functools', 'dataclasses', 'collections', 'types', 'typing', 'enum', 'heapq', 'abc',
               'operator', 'itertools', 'posixpath', 'genericpath', 'stat', '_collections_abc', 'copy'}
def _foreign(mod):
    """Library code isn't instrumented, so it can't be given symbolic values."""
    if not mod: return False
    mod = mod.partition('.')[0]
    return mod in sys.stdlib_module_names and mod not in _frameworks


def call(f, /, *args, **kw):
    e = MODELS.get(id(f))
    if e is not None and e[0] is f:
        return e[1](*args, **kw)
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        if _foreign(getattr(f, '__module__', None)) and anysym(args, kw):
            raise Unsupported('library function %s.%s' % (f.__module__, f.__qualname__))
        return f(*args, **kw)
    if tf in (types.BuiltinFunctionType, types.MethodWrapperType):
        s = getattr(f, '__self__', None)
        if s is not None and not isinstance(s, types.ModuleType):
            if isinstance(s, type):
                return classm(s, f.__name__, f, args, kw)
            ts = type(s)
            if ts in _remap or ts is type({}.values()) or (tf is types.BuiltinFunctionType and isinstance(s, dict) and getattr(ts, f.__name__) is getattr(dict, f.__name__, None)):
                return callm(s, f.__name__, *args, **kw)
            if not anysym(args, kw) or tf is types.MethodWrapperType or isinstance(s, (SymFile, types.GeneratorType, io.StringIO)) \
               or f.__name__ in ('__setattr__', '__init__', '__new__', '__eq__', '__getattribute__', '__lt__', '__init_subclass__'):
                return f(*args, **kw)
            raise Unsupported('native method %s.%s' % (ts.__name__, f.__name__))
        if not anysym(args, kw):
            return f(*args, **kw)
        if _issafe(f):
            if 'key' in kw: kw['key'] = wrapfn(kw['key'])
            return f(*args, **kw)
        raise Unsupported('native call %s' % getattr(f, '__qualname__', f))
    if isinstance(f, type):
        if f.__flags__ & _heap or issubclass(f, BaseException):
            if _foreign(f.__module__) and anysym(args, kw):
                raise Unsupported('library type %s' % f.__qualname__)
            return f(*args, **kw)
        if not anysym(args, kw) or _issafe(f):
            if 'key' in kw: kw['key'] = wrapfn(kw['key'])
            return f(*args, **kw)
        raise Unsupported('native type %s' % f.__name__)
    if tf in (types.MethodDescriptorType, types.WrapperDescriptorType):
        # e.g. bytes.join(x, ...), dict.get(d, k)
        if args and (anysym(args, kw) or is_symdict(args[0])):
            return callm(args[0], f.__name__, *args[1:], **kw)
        return f(*args, **kw)
    return f(*args, **kw)


def _issafe(f):
    try: return f in _SAFE
    except TypeError: return False


def classm(cls, name, f, args, kw):
    if name == 'from_bytes' and cls is int and anysym(args):
        data = SymBytes.lift(args[0])
        order = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
        return bytes_to_int(data.els, order == 'big', kw.get('signed', False))
    if name == 'fromhex' and cls is bytes and anysym(args):
        return m_unhexlify(args[0])
    if name == 'fromkeys' and cls is dict:
        return mkdict([(k, args[1] if len(args) > 1 else None) for k in list(args[0])])
    if name == 'maketrans': return f(*args, **kw)
    if name in ('from_iterable', '__new__', '_make') or not anysym(args, kw):
        return f(*args, **kw)
    raise Unsupported('native class method %s.%s' % (cls.__name__, name))


def callm(obj, name, /, *args, **kw):
    t = type(obj)
    st = _seqtypes.get(t)
    if st is not None:
        if name == 'join':
            parts = list(args[0])
            for p in parts:
                if type(p) in (SymBytes, SymStr, SymByteArray): return st.lift(obj).join(parts)
            return obj.join(parts)
        if args and anysym(args, kw):
            if name == 'encode' or name == 'decode':
                raise Unsupported('symbolic codec')
            if name == 'format': return str_format(obj, args, kw)
            return getattr(st.lift(obj), name)(*args, **kw)
        return getattr(obj, name)(*args, **kw)
    if t is dict or isinstance(obj, dict):
        m = getattr(t, name)
        if m is getattr(dict, name, None):
            if is_symdict(obj) or anysym(args, kw) or name == 'update' and any(is_symdict(a) for a in args):
                return dict_method(obj, name, args, kw)
        elif isinstance(obj, dict) and name in ('get', 'setdefault', 'pop') and (is_symdict(obj) or anysym(args, kw)) \
                and getattr(t, name) is getattr(collections.OrderedDict, name, None):
            return dict_method(obj, name, args, kw)
        return getattr(obj, name)(*args, **kw)
    if t is set or t is frozenset:
        if is_symdict(obj) or anysym(args, kw) or any(is_symdict(a) for a in args):
            return set_method(obj, name, args, kw)
        if name in ('update', 'union', 'intersection', 'difference'):
            args = [a if isinstance(a, (set, frozenset, dict)) else list(a) for a in args]
            if any(deepsym(x) for a in args for x in a):
                return set_method(obj, name, args, kw)
        return getattr(obj, name)(*args, **kw)
    if t is list or t is tuple or t is collections.deque:
        if 'key' in kw: kw['key'] = wrapfn(kw['key'])
        if t is list and name == 'pop' and args and isinstance(args[0], SymInt):
            args = (concretize(args[0]),)
        return getattr(obj, name)(*args, **kw)
    if t is _pat_t:
        if anysym(args, kw):
            from . import regex
            return getattr(regex.SymPattern(obj), name)(*args, **kw)
        return getattr(obj, name)(*args, **kw)
    if t is _struct_t:
        f = {'pack': m_pack, 'unpack': m_unpack, 'unpack_from': m_unpack_from,
             'iter_unpack': m_iter_unpack, 'pack_into': m_pack_into}.get(name)
        if f: return f(obj.format, *args, **kw)
        return getattr(obj, name)(*args, **kw)
    if t is int and name == 'to_bytes':
        return getattr(obj, name)(*args, **kw)
    m = getattr(obj, name)
    e = METHODS.get((t, name))
    if e is not None:
        return e(obj, *args, **kw)
    tm = type(m)
    return call(m, *args, **kw)


def str_format(fmt, args, kw):
    import string
    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit: parts.append(lit)
        if field is None: continue
        if field == '':
            v = args[auto]; auto += 1
        elif field.isdigit(): v = args[int(field)]
        else: v = string.Formatter().get_field(field, args, kw)[0]
        parts.append((v, conv, spec or ''))
    return fstr(*parts)


# ---------------------------------------------------------------- builtin models
_tmap = {SymFloat: float, SymInt: int, SymBool: bool, SymBytes: bytes, SymStr: str, SymByteArray: bytearray}

@model(isinstance)
def m_isinstance(o, T):
    nt = _tmap.get(type(o))
    if nt is None:
        if type(o) is SymFile:
            return isinstance(_bio, T) or isinstance(o, T)
        return isinstance(o, T)
    if isinstance(T, tuple):
        return any(m_isinstance(o, x) for x in T)
    if isinstance(T, types.UnionType):
        return any(m_isinstance(o, x) for x in T.__args__)
    return issubclass(nt, T) or isinstance(o, T)
_bio = io.BytesIO()

@model(type)
def m_type(*a, **k):
    if len(a) == 1: return _tmap.get(type(a[0]), type(a[0]))
    return type(*a, **k)

@model(int)
def m_int(x=0, base=None):
    if isinstance(x, SymInt): return x
    if isinstance(x, SymFloat): return x.trunc()
    if isinstance(x, SymBool): return x.as_int()
    if isinstance(x, (_Seq, SymByteArray)):
        if isinstance(x, SymByteArray): x = SymBytes(x.els)
        return parse_int(x, 10 if base is None else base)
    if base is None:
        if type(x).__module__.startswith('bup.') and hasattr(type(x), '__int__'):
            return type(x).__int__(x)
        return int(x)
    return int(x, concretize(base))

@model(float)
def m_float(x=0.0):
    if isinstance(x, (SymInt, SymBool)): return SymFloat(x + 0)
    if isinstance(x, SymFloat): return x
    if isinstance(x, _Seq): return parse_float(x)
    return float(x)

@model(bytes)
def m_bytes(*a, **k):
    if not a: return b''
    x = a[0]
    if isinstance(x, SymBytes): return x
    if isinstance(x, SymByteArray): return SymBytes.norm(x.els)
    if isinstance(x, SymStr): return x.encode(*a[1:], **k)
    if isinstance(x, SymInt): return b'\0' * concretize(x)
    if isinstance(x, (list, tuple)) or hasattr(x, '__next__'):
        els = list(x)
        for e in els:
            if isinstance(e, SymInt):
                if e.lo < 0 or e.hi > 255:
                    if or_(e < 0, e > 255): raise ValueError('bytes must be in range(0, 256)')
            elif not isinstance(e, int): raise TypeError('cannot convert to bytes')
            elif not 0 <= e < 256: raise ValueError('bytes must be in range(0, 256)')
        return SymBytes.norm(els)
    if isinstance(x, SymFile): raise TypeError("a bytes-like object is required, not 'BytesIO'")
    return bytes(*a, **k)

@model(bytearray)
def m_bytearray(*a, **k):
    if not a: return SymByteArray()
    if isinstance(a[0], int) and not isinstance(a[0], bool): return SymByteArray([0] * a[0])
    return SymByteArray(SymBytes.lift(m_bytes(*a, **k)).els)

@model(memoryview)
def m_memoryview(x):
    if is_sym(x): return x
    if isinstance(x, SymByteArray): return x
    return memoryview(x)

@model(str)
def m_str(*a, **k):
    if a and is_sym(a[0]):
        x = a[0]
        if isinstance(x, SymStr): return x
        if isinstance(x, SymInt): return SymStr.norm(dec_els(x))
        if isinstance(x, SymBytes) and len(a) > 1: return x.decode(*a[1:])
        if isinstance(x, SymBool): return str(bool(x))
        return '<sym>'
    return str(*a, **k)

@model(repr, ascii)
def m_repr(x):
    return '<sym>' if deepsym(x) else repr(x)

@model(ord)
def m_ord(x):
    if isinstance(x, (_Seq, SymByteArray)):
        if len(x.els) != 1: raise TypeError('ord() expected a character, but string of length %d found' % len(x.els))
        return x.els[0]
    return ord(x)

@model(chr)
def m_chr(x):
    if isinstance(x, SymInt): return SymStr.norm([x])
    return chr(x)

@model(hash)
def m_hash(x):
    return hash(x)

@model(hex)
def m_hex(x):
    if isinstance(x, SymInt): return SymStr.norm(list(b'0x') + radix_els(x, 16))
    return hex(x)
@model(oct)
def m_oct(x):
    if isinstance(x, SymInt): return SymStr.norm(list(b'0o') + radix_els(x, 8))
    return oct(x)

@model(map)
def m_map(f, *its): return map(wrapfn(f), *its)
@model(filter)
def m_filter(f, it): return filter(wrapfn(f), it)
@model(functools.partial)
def m_partial(f, *a, **k): return functools.partial(wrapfn(f) or f, *a, **k)
@model(functools.reduce)
def m_reduce(f, *a): return functools.reduce(wrapfn(f), *a)
@model(set)
def m_set(it=()):
    if isinstance(it, (set, frozenset)) and is_symdict(it): return set_method(it, 'copy', (), {})
    return mkset(it)
@model(frozenset)
def m_frozenset(it=()): return mkset(it, frozenset)
@model(dict)
def m_dict(*a, **k): return mkdict(*a, **k)
@model(format)
def m_format(v, spec=''): return fstr((v, None, spec))
@model(round)
def m_round(x, n=None):
    if isinstance(x, SymInt): return x
    return round(x, n) if n is not None else round(x)
@model(pow)
def m_pow(a, b, c=None):
    if c is None: return a ** b
    return pow(a, b, c)

@model(min)
def m_min(*a, **k): return _minmax(min, True, a, k)
@model(max)
def m_max(*a, **k): return _minmax(max, False, a, k)
def _minmax(f, ismin, a, k):
    if len(a) == 1: a = (list(a[0]),)
    xs = a[0] if len(a) == 1 else a
    if not k and len(xs) > 0 and all(isinstance(x, (int, SymInt)) for x in xs) and any(isinstance(x, SymInt) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = ite(x < r, x, r) if ismin else ite(x > r, x, r)
        return r
    if 'key' in k: k['key'] = wrapfn(k['key'])
    return f(*a, **k)


@model(binascii.hexlify, binascii.b2a_hex)
def m_hexlify(x):
    if is_sym(x):
        if not isinstance(x, SymBytes): raise TypeError('a bytes-like object is required')
        return SymBytes.norm(hexels(x.els))
    return binascii.hexlify(x)

@model(binascii.unhexlify, binascii.a2b_hex)
def m_unhexlify(x):
    if not is_sym(x): return binascii.unhexlify(x)
    els = x.els
    if len(els) % 2: raise binascii.Error('Odd-length string')
    ok = and_(*[or_(and_(e >= 48, e <= 57), and_(e >= 97, e <= 102), and_(e >= 65, e <= 70)) for e in els])
    if not ok: raise binascii.Error('Non-hexadecimal digit found')
    v = [_nib(e) for e in els]
    return SymBytes.norm([(v[i] << 4) | v[i + 1] for i in range(0, len(v), 2)])

def _nib(e):
    from .num import resize
    if not isinstance(e, SymInt): return int(chr(e), 16)
    r = ite(e <= 57, e - 48, ite(e >= 97, e - 87, e - 55))
    return mk(r.t, 0, 15) if isinstance(r, SymInt) else r

def bytes_to_int(els, big, signed=False):
    if not big: els = tuple(reversed(els))
    if len(els) > 1 and type(els[0]) is SymInt and els[0].orig:
        a, n = els[0].orig[0], len(els)
        if all(type(e) is SymInt and e.orig and e.orig[0] is a and e.orig[1] == n - 1 - i for i, e in enumerate(els)) and \
           (-(1 << 8 * n - 1) <= a.lo and a.hi < 1 << 8 * n - 1 if signed else a.lo >= 0 and a.hi < 1 << 8 * n):
            return a        # the bytes of a, put back together
    r = 0
    for i, e in enumerate(els):
        r = (r << 8) | e
    if signed and els:
        n = 8 * len(els)
        r = ite(r >= 1 << (n - 1), r - (1 << n), r)
    return r

# -- struct
_szs = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, '?': 1, 'c': 1, 'x': 1}

def _fmt_parse(fmt):
    if isinstance(fmt, bytes): fmt = fmt.decode('ascii')
    fmt = fmt.replace(' ', '')
    order = '@'
    if fmt and fmt[0] in '@=<>!': order, fmt = fmt[0], fmt[1:]
    if order in '@' and len(fmt.strip('0123456789')) > 1: raise Unsupported('native struct alignment')
    big = order in '>!'
    sz = dict(_szs)
    if order == '@': sz['l'] = sz['L'] = 8
    out = []
    for cnt, c in re.findall(r'(\d*)([a-zA-Z?])', fmt):
        if c == 's': out.append(('s', int(cnt) if cnt else 1, 0))
        elif c == 'x': out.append(('x', int(cnt) if cnt else 1, 0))
        elif c in 'fd': raise Unsupported('struct float')
        else:
            for _ in range(int(cnt) if cnt else 1):
                out.append((c, sz[c], c.islower() and c != 'c'))
    return big, out

@model(struct.calcsize)
def m_calcsize(fmt): return struct.calcsize(fmt)

@model(struct.pack)
def m_pack(fmt, *args):
    if not anysym(args): return struct.pack(fmt, *args)
    big, items = _fmt_parse(fmt)
    out = []
    args = list(args)
    if len(args) != sum(1 for c, _, _ in items if c != 'x'):
        raise struct.error('pack expected %d items' % len(items))
    for c, n, signed in items:
        if c == 'x':
            out.extend([0] * n); continue
        a = args.pop(0)
        if c == 's':
            els = list(SymBytes.lift(a).els)[:n]
            out.extend(els + [0] * (n - len(els)))
            continue
        if c == 'c':
            out.extend(SymBytes.lift(a).els); continue
        if c == '?':
            out.append(ite(a if isinstance(a, SymBool) else a != 0, 1, 0)); continue
        if isinstance(a, SymBool): a = a.as_int()
        if not isinstance(a, (int, SymInt)): raise struct.error('required argument is not an integer')
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        if isinstance(a, SymInt):
            if a.lo < lo and a < lo: raise struct.error('out of range')
            if a.hi > hi and a > hi: raise struct.error('out of range')
            els = byte_els(a, n)
        else:
            if not lo <= a <= hi: raise struct.error('out of range')
            els = list((a & ((1 << 8 * n) - 1)).to_bytes(n, 'little'))
        if big: els.reverse()
        out.extend(els)
    return SymBytes.norm(out)

def _unpack(fmt, els):
    big, items = _fmt_parse(fmt)
    out, p = [], 0
    for c, n, signed in items:
        seg = els[p:p + n]
        p += n
        if c == 'x': continue
        if c in 'sc': out.append(SymBytes.norm(seg))
        elif c == '?': out.append(seg[0] != 0)
        else: out.append(bytes_to_int(seg, big, signed))
    return tuple(out)

@model(struct.unpack)
def m_unpack(fmt, data):
    if not (is_sym(data) or isinstance(data, SymByteArray)): return struct.unpack(fmt, data)
    els = data.els
    n = struct.calcsize(fmt)
    if len(els) != n: raise struct.error('unpack requires a buffer of %d bytes' % n)
    return _unpack(fmt, els)

@model(struct.unpack_from)
def m_unpack_from(fmt, data=None, offset=0, **k):
    data = k.get('buffer', data)
    offset = concretize(offset)
    if not (is_sym(data) or isinstance(data, SymByteArray)): return struct.unpack_from(fmt, data, offset)
    els = data.els
    n = struct.calcsize(fmt)
    if offset < 0: offset += len(els)
    if len(els) - offset < n: raise struct.error('unpack_from requires a buffer of at least %d bytes' % n)
    return _unpack(fmt, els[offset:offset + n])

@model(struct.iter_unpack)
def m_iter_unpack(fmt, data):
    if not is_sym(data): return struct.iter_unpack(fmt, data)
    n = struct.calcsize(fmt)
    return iter([_unpack(fmt, data.els[i:i + n]) for i in range(0, len(data.els), n)])

@model(struct.pack_into)
def m_pack_into(fmt, buf, offset, *args):
    if not (isinstance(buf, SymByteArray) or anysym(args)): return struct.pack_into(fmt, buf, offset, *args)
    d = SymBytes.lift(m_pack(fmt, *args)).els
    offset = concretize(offset)
    if isinstance(buf, SymByteArray):
        if offset + len(d) > len(buf.els): raise struct.error('pack_into requires a larger buffer')
        buf.els[offset:offset + len(d)] = d
    else:
        for i, e in enumerate(d): buf[offset + i] = e

# -- io
@model(io.BytesIO)
def m_bytesio(data=b''): return SymFile(data)

# -- os / stat
@model(os.fsencode)
def m_fsencode(x):
    if isinstance(x, SymBytes): return x
    if isinstance(x, SymStr): return x.encode('utf-8', 'surrogateescape')
    return os.fsencode(x)
@model(os.fsdecode)
def m_fsdecode(x):
    if isinstance(x, SymStr): return x
    if isinstance(x, SymBytes): return x.decode('utf-8', 'surrogateescape')
    return os.fsdecode(x)
@model(os.fspath)
def m_fspath(x):
    return x if is_sym(x) else os.fspath(x)

@model(stat.S_IFMT)
def m_ifmt(m): return m & 0o170000
@model(stat.S_IMODE)
def m_imode(m): return m & 0o7777
for _n, _v in (('S_ISDIR', stat.S_IFDIR), ('S_ISREG', stat.S_IFREG), ('S_ISLNK', stat.S_IFLNK),
               ('S_ISCHR', stat.S_IFCHR), ('S_ISBLK', stat.S_IFBLK), ('S_ISFIFO', stat.S_IFIFO),
               ('S_ISSOCK', stat.S_IFSOCK)):
    def _mkm(v):
        def m(mode):
            if not isinstance(mode, (int, SymInt)): raise TypeError('an integer is required')
            return (mode & 0o170000) == v
        return m
    model(getattr(stat, _n))(_mkm(_v))

@model(os.major)
def m_major(d):
    if not isinstance(d, SymInt): return os.major(d)
    return ((d >> 8) & 0xfff) | ((d >> 32) & ~0xfff & 0xffffffff)
@model(os.minor)
def m_minor(d):
    if not isinstance(d, SymInt): return os.minor(d)
    return (d & 0xff) | ((d >> 12) & 0xffffff00)
@model(os.makedev)
def m_makedev(a, b):
    if not is_sym(a) and not is_sym(b): return os.makedev(a, b)
    return ((b & 0xff) | ((a & 0xfff) << 8) | ((b & 0xffffff00) << 12) | ((a & 0xfffff000) << 32))

# -- re
def _re_model(name):
    def m(pat, *args, **kw):
        if not anysym(args, kw) and not is_sym(pat):
            return getattr(re, name)(pat, *args, **kw)
        from . import regex
        if is_sym(pat): raise Unsupported('symbolic regular expression')
        flags = kw.pop('flags', 0)
        if name in ('match', 'search', 'fullmatch', 'findall', 'finditer') and len(args) > 1:
            flags, args = args[1], args[:1]
        return getattr(regex.SymPattern(re.compile(pat, flags)), name)(*args, **kw)
    return m
for _n in ('match', 'search', 'fullmatch', 'sub', 'subn', 'split', 'findall', 'finditer'):
    model(getattr(re, _n))(_re_model(_n))

@model(re.compile)
def m_recompile(p, flags=0):
    if is_sym(p):
        from . import regex
        return regex.compile_sym(p, flags)
    return re.compile(p, flags)

@model(re.escape)
def m_reescape(p):
    if is_sym(p):
        raise Unsupported('re.escape of symbolic')
    return re.escape(p)

# -- zlib / hashes
@model(zlib.crc32)
def m_crc32(data, start=0):
    if not is_sym(data) and not is_sym(start): return zlib.crc32(data, start)
    raise Unsupported('crc32')

_sha_ids = []      # list of (els, digest)

class SymSha:
    """Collision-free content hash: equal contents get equal digests, different
    contents different ones (the assumption every content-addressed store makes)."""
    def __init__(self, data=b''):
        self.els = tuple(SymBytes.lift(data).els)
    def update(self, data):
        self.els = self.els + tuple(SymBytes.lift(data).els)
    def copy(self):
        return SymSha(SymBytes(self.els))
    def digest(self):
        if all(type(e) is int for e in self.els):
            import hashlib
            d = hashlib.sha1(bytes(self.els)).digest()
            for els, dd in _sha_ids:
                if dd == d: return d
            # a symbolic content may equal this one
            for els, dd in _sha_ids:
                if len(els) == len(self.els) and SymBytes(els).eq(SymBytes(self.els)):
                    return dd
            _sha_ids.append((self.els, d))
            return d
        for els, d in _sha_ids:
            if len(els) == len(self.els) and SymBytes(els).eq(SymBytes(self.els)):
                return d
        import hashlib
        d = hashlib.sha1(b'sx!%d!%d' % (len(_sha_ids), len(self.els))).digest()
        _sha_ids.append((self.els, d))
        return d
    def hexdigest(self): return self.digest().hex()

import hashlib
@model(hashlib.sha1)
def m_sha1(data=b'', **k): return SymSha(data)

# ---------------------------------------------------------------- stdlib paths
def install_posixpath():
    """os.path functions on symbolic paths run CPython's own pure Python source."""
    import posixpath, genericpath
    from . import instr
    mods = {}
    for real in (genericpath, posixpath):
        m = types.ModuleType('sx_' + real.__name__)
        m.__dict__['__sx__'] = instr.SX
        m.__file__ = real.__file__
        src = open(real.__file__, encoding='utf-8').read()
        src = src.replace('from posix import _path_normpath', 'raise ImportError')
        exec(instr.compile_source(src, real.__file__, m.__name__), m.__dict__)
        mods[real] = m
    for k, v in list(vars(mods[posixpath]).items()):
        g = vars(mods[genericpath]).get(k)
        if g is not None and isinstance(g, types.FunctionType): setattr(mods[posixpath], k, g)
    mods[posixpath].genericpath = mods[genericpath]
    for n in ('join', 'normpath', 'split', 'basename', 'dirname', 'isabs', 'normcase', 'splitext',
              'commonprefix', 'relpath', 'splitdrive', 'commonpath', 'abspath'):
        real, sym = getattr(posixpath, n), getattr(mods[posixpath], n)
        def mk1(real, sym):
            def m(*a, **k):
                return sym(*a, **k) if anysym(a, k) else real(*a, **k)
            return m
        model(real)(mk1(real, sym))
        if n == 'normpath':
            import posix
            if hasattr(posix, '_path_normpath'):
                model(posix._path_normpath)(mk1(posix._path_normpath, sym))


# ---------------------------------------------------------------- bup._helpers
def install_helpers():
    from bup import _helpers as H
    def m(name):
        f = getattr(H, name, None)
        def deco(g):
            if f is None: return g
            def w(*a, **k):
                if not anysym(a, k): return f(*a, **k)
                return g(*a, **k)
            MODELS[id(f)] = (f, w)
            return g
        return deco

    @m('limited_vint_pack')
    def limited_vint_pack(types_, args): raise OverflowError('sx: use the Python encoder')

    @m('vuint_encode')
    def vuint_encode(x):
        if not isinstance(x, SymInt): raise TypeError('int required')
        if x < 0: raise OverflowError('negative')
        if x >= 1 << 64: raise OverflowError('too big')
        out = []
        while x >= 128:
            out.append((x & 127) | 128)
            x = x >> 7
        out.append(x)
        return SymBytes.norm(out)

    @m('vint_encode')
    def vint_encode(x):
        if x >= 1 << 63 or x < -(1 << 63): raise OverflowError('too big')
        neg = 0
        if x < 0: neg, x = 0x40, -x
        if x < 64: return SymBytes.norm([x | neg])
        out = [(x & 63) | neg | 128]
        x = x >> 6
        while x >= 128:
            out.append((x & 127) | 128)
            x = x >> 7
        out.append(x)
        return SymBytes.norm(out)

    @m('strtoimax')
    def strtoimax(s):
        els, i = SymBytes.lift(s).els, 0
        if or_(*[e == 0 for e in els]): raise ValueError('embedded null byte')
        n, neg = len(els), False
        while i < n and or_(els[i] == 32, and_(els[i] >= 9, els[i] <= 13)): i += 1
        if i < n and or_(els[i] == 43, els[i] == 45):
            neg = bool(els[i] == 45); i += 1
        def dig(k, base):
            if k >= n: return None
            e = els[k]
            if and_(e >= 48, e < 48 + min(base, 10)): return digit(e)
            if base == 16 and and_(e >= 97, e <= 102): return e - 87
            if base == 16 and and_(e >= 65, e <= 70): return e - 55
        base, tot, nd = 10, 0, 0
        if i < n and els[i] == 48:
            base = 8
            if i + 2 < n and or_(els[i + 1] == 120, els[i + 1] == 88) and dig(i + 2, 16) is not None:
                base = 16; i += 2
        while True:
            d = dig(i, base)
            if d is None: break
            tot = tot * base + d; i += 1; nd += 1
        if not nd: return (None, 0)
        if neg: tot = -tot
        if tot > (1 << 63) - 1: return (float('inf'), 0)
        if tot < -(1 << 63): return (float('-inf'), 0)
        return (tot, i)

    @m('bytescmp')
    def bytescmp(a, b):
        a, b = SymBytes.lift(a), SymBytes.lift(b)
        if a < b: return -1
        if b < a: return 1
        return 0

    @m('firstword')
    def firstword(b): return bytes_to_int(SymBytes.lift(b).els[:4], True)

    @m('extract_bits')
    def extract_bits(b, n):
        v = bytes_to_int(SymBytes.lift(b).els[:4], True)
        return (v >> (32 - n)) & ((1 << n) - 1)

    @m('bitmatch')
    def bitmatch(a, b):
        a, b = SymBytes.lift(a).els, SymBytes.lift(b).els
        n = 0
        for x, y in zip(a, b):
            if x == y:
                n += 8
                continue
            for k in range(7, -1, -1):
                if (x >> k) & 1 == (y >> k) & 1: n += 1
                else: return n
        return n


import urllib.parse

@model(urllib.parse.unquote_to_bytes)
def m_unquote_to_bytes(s):
    if not is_sym(s): return urllib.parse.unquote_to_bytes(s)
    if isinstance(s, SymStr): raise Unsupported('unquote_to_bytes of text')
    els, out, i = s.els, [], 0
    def hexd(c):
        if isinstance(c, int): return 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102
        return or_(and_(c >= 48, c <= 57), and_(c >= 65, c <= 70), and_(c >= 97, c <= 102))
    while i < len(els):
        if i + 2 < len(els) and els[i] == 37 and hexd(els[i+1]) and hexd(els[i+2]):
            out.append(m_unhexlify(SymBytes(els[i+1:i+3]))[0])
            i += 3
        else:
            out.append(els[i])
            i += 1
    return SymBytes.norm(out)
