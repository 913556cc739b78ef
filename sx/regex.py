"""Backtracking regular-expression matcher over symbolic strings, driven by
CPython's own parse of the pattern (re._parser)."""
import re
from re import _parser as P, _constants as C
from . import core
from .core import Unsupported
from .num import SymInt, and_, or_, not_, concretize
from .seq import SymBytes, SymStr, _Seq, is_sym


def _cat(cat, e, uni):
    n = str(cat)
    neg = 'NOT_' in n
    if uni and isinstance(e, SymInt) and e.hi >= 128:
        if e >= 128: raise Unsupported('unicode category')
    elif uni and not isinstance(e, SymInt) and e >= 128:
        raise Unsupported('unicode category')
    if n.endswith('DIGIT'): r = and_(e >= 48, e <= 57)
    elif n.endswith('SPACE'): r = or_(e == 32, and_(e >= 9, e <= 13), *([and_(e >= 28, e <= 31)] if uni else []))
    elif n.endswith('WORD'):
        r = or_(and_(e >= 48, e <= 57), and_(e >= 65, e <= 90), and_(e >= 97, e <= 122), e == 95)
    else: raise Unsupported('category ' + n)
    return not_(r) if neg else r


class SymPattern:
    def __init__(self, pat):
        self.pat = pat
        self.tree = P.parse(pat.pattern, pat.flags & ~re.UNICODE if isinstance(pat.pattern, bytes) else pat.flags)
        self.isb = isinstance(pat.pattern, bytes)
        self.cls = SymBytes if self.isb else SymStr
        self.groups = pat.groups
        self.groupindex = dict(pat.groupindex)
        self.pattern = pat.pattern
        self.flags = pat.flags

    # -- single characters
    def _lit(self, c, e, flags):
        if flags & re.IGNORECASE and chr(c).isalpha():
            if c > 127: raise Unsupported('non-ascii ignorecase')
            return or_(e == ord(chr(c).lower()), e == ord(chr(c).upper()))
        return e == c

    def _in(self, items, e, flags):
        neg, cs = False, []
        uni = not self.isb and not flags & re.ASCII
        for op, a in items:
            if op is C.NEGATE: neg = True
            elif op is C.LITERAL: cs.append(self._lit(a, e, flags))
            elif op is C.RANGE:
                if flags & re.IGNORECASE:
                    for x in range(a[0], a[1] + 1): cs.append(self._lit(x, e, flags))
                else: cs.append(and_(e >= a[0], e <= a[1]))
            elif op is C.CATEGORY: cs.append(_cat(a, e, uni))
            else: raise Unsupported('regex set %s' % op)
        r = or_(*cs)
        return not_(r) if neg else r

    def _single(self, op, a, e, flags):
        if op is C.LITERAL: return self._lit(a, e, flags)
        if op is C.NOT_LITERAL: return not_(self._lit(a, e, flags))
        if op is C.ANY: return True if flags & re.DOTALL else e != 10
        if op is C.IN: return self._in(a, e, flags)
        return None

    def _m(self, nodes, k, els, i, g, flags):
        """Generate (pos, groups) in priority order."""
        if k == len(nodes):
            yield i, g
            return
        op, a = nodes[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i < len(els) and self._single(op, a, els[i], flags):
                yield from self._m(nodes, k + 1, els, i + 1, g, flags)
            return
        if op is C.AT:
            if self._at(a, els, i, flags):
                yield from self._m(nodes, k + 1, els, i, g, flags)
            return
        if op is C.BRANCH:
            for alt in a[1]:
                for j, g2 in self._m(list(alt), 0, els, i, g, flags):
                    yield from self._m(nodes, k + 1, els, j, g2, flags)
            return
        if op is C.SUBPATTERN:
            num, add, dele, sub = a
            for j, g2 in self._m(list(sub), 0, els, i, g, (flags | add) & ~dele):
                if num is not None:
                    g2 = dict(g2)
                    g2[num] = (i, j)
                yield from self._m(nodes, k + 1, els, j, g2, flags)
            return
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = a
            sub = list(sub)
            hi = len(els) + lo + 1 if hi is C.MAXREPEAT else hi
            greedy = op is C.MAX_REPEAT
            def rep(n, i, g):
                if not greedy and n >= lo:
                    yield i, g
                if n < hi:
                    for j, g2 in self._m(sub, 0, els, i, g, flags):
                        if j == i and n >= lo: continue
                        yield from rep(n + 1, j, g2)
                if greedy and n >= lo:
                    yield i, g
            for j, g2 in rep(0, i, g):
                yield from self._m(nodes, k + 1, els, j, g2, flags)
            return
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = a
            if d != 1: raise Unsupported('lookbehind')
            r = next(self._m(list(sub), 0, els, i, g, flags), None)
            if (r is not None) == (op is C.ASSERT):
                yield from self._m(nodes, k + 1, els, i, r[1] if r else g, flags)
            return
        if op is C.GROUPREF:
            if a in g:
                s, e = g[a]
                n = e - s
                if i + n <= len(els) and and_(*[els[s + x] == els[i + x] for x in range(n)]):
                    yield from self._m(nodes, k + 1, els, i + n, g, flags)
            return
        raise Unsupported('regex op %s' % op)

    def _at(self, a, els, i, flags):
        n = len(els)
        if a is C.AT_BEGINNING:
            if i == 0: return True
            return bool(flags & re.MULTILINE) and els[i - 1] == 10
        if a is C.AT_BEGINNING_STRING: return i == 0
        if a is C.AT_END:
            if i == n: return True
            if flags & re.MULTILINE: return els[i] == 10
            return i == n - 1 and els[i] == 10
        if a is C.AT_END_STRING: return i == n
        if a in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = lambda e: bool(_cat('WORD', e, not self.isb))
            l = w(els[i - 1]) if i > 0 else False
            r = w(els[i]) if i < n else False
            return (l != r) == (a is C.AT_BOUNDARY)
        raise Unsupported('regex at %s' % a)

    def _match(self, s, pos, full=False):
        els = s.els
        flags = self.tree.state.flags | self.pat.flags
        for j, g in self._m(list(self.tree), 0, els, pos, {}, flags):
            if full and j != len(els): continue
            return SymMatch(self, s, pos, j, g)
        return None

    def match(self, s, pos=0, endpos=None):
        return self._match(self.cls.lift(s), pos)
    def fullmatch(self, s, pos=0, endpos=None):
        return self._match(self.cls.lift(s), pos, True)
    def search(self, s, pos=0, endpos=None):
        s = self.cls.lift(s)
        for i in range(pos, len(s.els) + 1):
            m = self._match(s, i)
            if m: return m
        return None
    def finditer(self, s, pos=0, endpos=None):
        s = self.cls.lift(s)
        i = pos
        lastend = -1
        while i <= len(s.els):
            m = None
            els, flags = s.els, self.tree.state.flags | self.pat.flags
            for j, g in self._m(list(self.tree), 0, els, i, {}, flags):
                if j == i and i == lastend: continue     # no empty match right after a match
                m = SymMatch(self, s, i, j, g)
                break
            if m is None:
                i += 1
                continue
            yield m
            lastend = m.end()
            i = m.end() if m.end() > m.start() else i
            if m.end() == m.start(): 
                i = m.end()
                # try a non-empty match at the same place next round
                if i == lastend:
                    found = False
                    for j, g in self._m(list(self.tree), 0, els, i, {}, flags):
                        if j > i:
                            m2 = SymMatch(self, s, i, j, g)
                            yield m2
                            lastend = i = j
                            found = True
                            break
                    if not found:
                        i += 1
    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s):
            if self.groups == 0: out.append(m.group())
            elif self.groups == 1: out.append(m.group(1) if m.group(1) is not None else self.cls.norm(()))
            else: out.append(tuple(x if x is not None else self.cls.norm(()) for x in m.groups()))
        return out
    def subn(self, repl, s, count=0):
        s = self.cls.lift(s)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count: break
            out.extend(s.els[last:m.start()])
            r = repl(m) if callable(repl) else self._template(repl, m)
            out.extend(self.cls.lift(r).els)
            last = m.end()
            n += 1
        out.extend(s.els[last:])
        return self.cls.norm(out), n
    def sub(self, repl, s, count=0): return self.subn(repl, s, count)[0]
    def _template(self, repl, m):
        r = self.cls.lift(repl)
        if not any(e == 92 for e in r.els): return repl
        if is_sym(repl): raise Unsupported('symbolic replacement template')
        out = []
        for lit in P.parse_template(repl, self.pat):
            if isinstance(lit, int): out.extend(self.cls.lift(m.group(lit)).els)
            else: out.extend(self.cls.lift(lit).els)
        return self.cls.norm(out)
    def split(self, s, maxsplit=0):
        s = self.cls.lift(s)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit: break
            out.append(self.cls.norm(s.els[last:m.start()]))
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(self.cls.norm(s.els[last:]))
        return out


class SymMatch:
    def __init__(self, pat, s, i, j, g):
        self.re, self.string, self.pat = pat, s, pat
        self.g = dict(g)
        self.g[0] = (i, j)
    def _num(self, k):
        if isinstance(k, str): return self.pat.groupindex[k]
        return k
    def group(self, *ks):
        if not ks: ks = (0,)
        r = []
        for k in ks:
            k = self._num(k)
            if k > self.pat.groups: raise IndexError('no such group')
            sp = self.g.get(k)
            r.append(None if sp is None else self.pat.cls.norm(self.string.els[sp[0]:sp[1]]))
        return r[0] if len(r) == 1 else tuple(r)
    def __getitem__(self, k): return self.group(k)
    def groups(self, default=None):
        r = [self.group(k) for k in range(1, self.pat.groups + 1)]
        return tuple(default if x is None else x for x in r)
    def groupdict(self, default=None):
        return {n: (self.group(k) if self.group(k) is not None else default) for n, k in self.pat.groupindex.items()}
    def start(self, k=0): return self.g[self._num(k)][0] if self._num(k) in self.g else -1
    def end(self, k=0): return self.g[self._num(k)][1] if self._num(k) in self.g else -1
    def span(self, k=0): return self.start(k), self.end(k)
    @property
    def lastindex(self): raise Unsupported('lastindex')
    @property
    def lastgroup(self): raise Unsupported('lastgroup')


def compile_sym(p, flags):
    raise Unsupported('symbolic regular expression')
