"""Path-exploring symbolic execution core: one global context, forking on
the truth value of symbolic conditions, z3 deciding every branch and
every assertion."""
import time
import z3

cur = None


class Stop(BaseException):
    """Base of everything the engine itself raises (never caught by code under test)."""
    def __init__(self, *a):
        super().__init__(*a)
        if cur is not None and cur.pending is None:
            cur.pending = self
class PathAbort(Stop):
    """An assumption cannot hold on this path."""
class Inconclusive(Stop):
    """Solver said unknown, a budget ran out, or an operation has no model."""
class Unsupported(Inconclusive):
    pass
class Violation(Stop):
    def __init__(self, label, values, note=''):
        super().__init__(label)
        self.label, self.values, self.note = label, values, note


class Decision:
    __slots__ = ('cond', 'taken', 'alt', 'model', 'forked')
    def __init__(self, cond, taken, forked, alt, model):
        self.cond, self.taken, self.forked, self.alt, self.model = cond, taken, forked, alt, model


class Ctx:
    symbolic = True
    def __init__(self, timeout_ms=60000, seed=1, logic=None):
        self.solver = z3.SolverFor(logic) if logic else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', seed)
        self.trail = []
        self.pos = 0
        self.model = None
        self.inputs = {}       # name -> z3 term or list
        self.nfresh = 0
        self.divs = {}
        self.stats = dict(paths=0, forks=0, queries=0, solver_s=0.0, asserts=0,
                          discharged=0, aborted=0)
        self.reached = {}
        self.funcs = set()
        self.deadline = None
        self.max_forks = None
        self.pending = None
        self.vars = {}

    # -- solver
    def _check(self, extra=None):
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive('time budget exhausted')
        t = time.time()
        self.stats['queries'] += 1
        if extra is None:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        else:
            self.solver.push()
            self.solver.add(extra)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            raise Inconclusive('solver unknown: ' + self.solver.reason_unknown())
        return m

    def _need_model(self):
        if self.model is None:
            self.model = self._check()
            if self.model is None:
                raise Inconclusive('path condition became unsatisfiable')
        return self.model

    # -- forking
    def branch(self, cond):
        if self.pending: raise self.pending
        if cond is True or cond is False:
            return cond
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            if d.cond is not None and not d.cond.eq(cond):
                raise Inconclusive('nondeterministic execution: branch differs on replay')
            return d.taken
        sc = z3.simplify(cond)
        if z3.is_true(sc) or z3.is_false(sc):
            taken = z3.is_true(sc)
            self.trail.append(Decision(cond, taken, False, False, None))
            self.pos += 1
            return taken
        m = self._need_model()
        side = z3.is_true(m.eval(sc, model_completion=True))
        other = z3.Not(sc) if side else sc
        om = self._check(other)
        if om is None:
            self.trail.append(Decision(cond, side, False, False, None))
        else:
            self.stats['forks'] += 1
            self.solver.push()
            self.solver.add(sc if side else z3.Not(sc))
            self.trail.append(Decision(cond, side, True, True, om))
        self.pos += 1
        return side

    def assume(self, cond):
        if self.pending: raise self.pending
        cond = _raw(cond)
        if cond is True:
            return
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            if d.taken is None:
                raise PathAbort()
            return
        if cond is False:
            self.trail.append(Decision(None, None, False, False, None))
            self.pos += 1
            raise PathAbort()
        ok = True
        if not (self.model is not None
                and z3.is_true(self.model.eval(cond, model_completion=True))):
            m = self._check(cond)
            if m is None:
                ok = False
            else:
                self.model = m
        if ok:
            self.solver.add(cond)
        self.trail.append(Decision(None, True if ok else None, False, False, None))
        self.pos += 1
        if not ok:
            raise PathAbort()

    def define(self, cond):
        """Add a defining constraint on fresh variables (always satisfiable)."""
        if self.pending: raise self.pending
        if self.pos < len(self.trail):
            self.pos += 1
            return
        self.solver.add(cond)
        self.model = None
        self.trail.append(Decision(None, True, False, False, None))
        self.pos += 1

    def check(self, cond, label, note=''):
        """Assert cond holds for every value on this path."""
        if self.pending: raise self.pending
        cond = _raw(cond)
        fresh = self.pos >= len(self.trail)
        if not fresh:
            self.pos += 1
            return
        self.stats['asserts'] += 1
        self.reached[label] = self.reached.get(label, 0) + 1
        if cond is True:
            self.stats['discharged'] += 1
            self.trail.append(Decision(None, True, False, False, None))
            self.pos += 1
            return
        if cond is False:
            self._violate(self._need_model(), label, note)
        m = self._check(z3.Not(cond))
        if m is not None:
            self._violate(m, label, note)
        self.stats['discharged'] += 1
        self.trail.append(Decision(None, True, False, False, None))
        self.pos += 1

    def fail(self, label, note=''):
        self.check(False, label, note)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def _violate(self, m, label, note):
        raise Violation(label, self.values(m), note)

    def values(self, m):
        out = {}
        for name, t in self.inputs.items():
            out[name] = _val(m, t)
        return out

    # -- inputs
    def fresh(self, prefix, lo, hi, math=False):
        self.nfresh += 1
        return self._mkvar('%s!%d' % (prefix, self.nfresh), lo, hi, math)

    def _mkvar(self, name, lo, hi, math=False):
        if lo == hi:
            return lo
        k = (name, lo, hi, math)
        e = self.vars.get(k)
        if e is None: e = self.vars[k] = self._newvar(name, lo, hi, math)
        v, c = e
        if c is not None: self.define(c)
        return v

    def _newvar(self, name, lo, hi, math):
        from .num import SymInt, width
        if math:
            t = z3.Int(name)
            return SymInt(t, lo, hi), z3.And(t >= lo, t <= hi)
        # exact power-of-two unsigned ranges need no constraint
        if lo == 0 and hi & (hi + 1) == 0:
            n = hi.bit_length()
            return SymInt(z3.ZeroExt(1, z3.BitVec(name, n)), lo, hi), None
        w = width(lo, hi)
        t = z3.BitVec(name, w)
        if not (lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1):
            return SymInt(t, lo, hi), z3.And(t >= lo, t <= hi)
        return SymInt(t, lo, hi), None

    def int(self, name, lo, hi, math=False):
        assert name not in self.inputs, name
        if lo == hi:
            self.inputs[name] = lo
            return lo
        v = self._mkvar('in_' + name, lo, hi, math)
        self.inputs[name] = v
        return v

    def bool(self, name):
        from .num import SymBool
        assert name not in self.inputs, name
        t = z3.Bool('in_' + name)
        self.inputs[name] = t
        return SymBool(t)

    def flag(self, name):
        """A boolean that is forked on immediately (concrete on each path)."""
        return bool(self.bool(name))

    def choose(self, name, n):
        """A concrete value in range(n), forked on."""
        v = self.int(name, 0, n - 1)
        from .num import concretize
        return concretize(v)

    def bytes(self, name, n, alphabet=None, exclude=None):
        from .seq import SymBytes
        from .num import or_
        assert name not in self.inputs, name
        els = []
        for i in range(n):
            e = self._mkvar('in_%s_%d' % (name, i), 0, 255)
            if alphabet is not None:
                self.define(_raw(or_(*[e == c for c in alphabet])))
            for c in exclude or b'':
                self.define(_raw(e != c))
            els.append(e)
        r = SymBytes(els)
        self.inputs[name] = r
        return r

    def list_of(self, name, n, fn):
        return [fn('%s%d' % (name, i)) for i in range(n)]


def _raw(c):
    from .num import SymBool
    if isinstance(c, SymBool):
        return c.t
    if isinstance(c, bool) or z3.is_expr(c):
        return c
    if c is None:
        return False
    return bool(c)


def _val(m, t):
    from .num import SymInt, SymBool
    from .seq import SymBytes
    if isinstance(t, SymInt):
        return t.value_in(m)
    if isinstance(t, SymBytes):
        return bytes(e if isinstance(e, int) else e.value_in(m) for e in t.els)
    if isinstance(t, SymBool):
        t = t.t
    if z3.is_expr(t) and z3.is_bool(t):
        return z3.is_true(m.eval(t, model_completion=True))
    return t


def explore(fn, *, budget_s=None, timeout_ms=60000, seed=1, max_paths=None, logic=None):
    """Run fn(ctx) on every feasible path.  Returns the Ctx; raises
    Violation or Inconclusive."""
    global cur
    ctx = Ctx(timeout_ms=timeout_ms, seed=seed, logic=logic)
    if budget_s:
        ctx.deadline = time.time() + budget_s
    prev, cur = cur, ctx
    try:
        while True:
            ctx.pos = 0
            ctx.inputs = {}
            ctx.nfresh = 0
            ctx.divs = {}
            ctx.pending = None
            try:
                fn(ctx)
                ctx.stats['paths'] += 1
            except PathAbort:
                ctx.stats['aborted'] += 1
            except Violation as v:
                v.ctx = ctx
                raise
            except Inconclusive as ex:
                ex.ctx = ctx
                raise
            over = None
            if max_paths and ctx.stats['paths'] > max_paths:
                over = Inconclusive('path budget exhausted (%d)' % max_paths)
            if ctx.deadline and time.time() > ctx.deadline:
                over = Inconclusive('time budget exhausted')
            if over is not None and any(d.alt for d in ctx.trail):
                over.ctx = ctx
                raise over
            while ctx.trail and not ctx.trail[-1].alt:
                if ctx.trail.pop().forked:
                    ctx.solver.pop()
            if not ctx.trail:
                return ctx
            d = ctx.trail[-1]
            ctx.solver.pop()
            d.taken = not d.taken
            d.alt = False
            ctx.solver.push()
            ctx.solver.add(d.cond if d.taken else z3.Not(d.cond))
            ctx.model, d.model = d.model, None
    finally:
        cur = prev


class Conc:
    """The same interface over concrete values: used to replay a
    counterexample on the real, uninstrumented code."""
    symbolic = False
    def __init__(self, values):
        self.vals = values
        self.reached = {}
        self.nfresh = 0
    def _get(self, name, default):
        return self.vals.get(name, default)
    def int(self, name, lo, hi, math=False): return self._get(name, lo)
    def bool(self, name): return self._get(name, False)
    def flag(self, name): return bool(self._get(name, False))
    def choose(self, name, n): return self._get(name, 0)
    def bytes(self, name, n, alphabet=None, exclude=None):
        v = self._get(name, None)
        return bytes(v) if v is not None else bytes([alphabet[0] if alphabet else 97]) * n
    def list_of(self, name, n, fn): return [fn('%s%d' % (name, i)) for i in range(n)]
    def assume(self, c):
        if not c:
            raise PathAbort()
    def check(self, c, label, note=''):
        self.reached[label] = self.reached.get(label, 0) + 1
        if not c:
            raise Violation(label, self.vals, note)
    def fail(self, label, note=''): self.check(False, label, note)
    def reach(self, label): self.reached[label] = self.reached.get(label, 0) + 1
