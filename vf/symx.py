"""symx: a small path-exhaustive symbolic execution engine for Python code (z3 back end).

A *harness* is a function ``h(ctx)`` that drives the real code.  Inputs are symbolic
variables obtained from ``ctx`` (``ctx.bool``, ``ctx.int``, ``ctx.enum``).  Whenever the code
under test - or an environment stub of the harness - branches on a symbolic value, the engine
asks z3 which outcomes are feasible under the current path condition, follows one and queues the
others.  A path therefore stands for *every* assignment of the variables that satisfies its path
condition.  ``ctx.check(P)`` discharges the obligation ``PC and not P`` with z3: unsat means P
holds for every assignment of that path, sat yields a model (a concrete counterexample).

Exploration is exhaustive: the decision tree is walked until no unexplored feasible branch is
left (or the run is reported as incomplete - never as success).
"""
from __future__ import annotations

import signal
import time
import traceback

import z3

z3.set_param("smt.random_seed", 1)


class EngineStop(BaseException):
    """Base of the engine's own control-flow exceptions (never caught by code under test)."""


class PathInfeasible(EngineStop):
    pass


class PathTimeout(EngineStop):
    pass


class Violation(EngineStop):
    def __init__(self, msg, model, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.model = model
        self.detail = detail


class EngineError(EngineStop):
    pass


_CTX = None  # current context (one per process)
# When set, every symbolic value is decided as soon as it is created (no proxy reaches the code
# under test).  Used as a second attempt when code inspects values in a way proxies cannot follow.
EAGER = False


def current():
    return _CTX


# --------------------------------------------------------------------------------------------
# proxies


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _CTX.decide(self.t)

    def __and__(self, o):
        return s_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return s_not(self)

    def __eq__(self, o):
        return s_iff(self, o)

    def __ne__(self, o):
        return s_not(s_iff(self, o))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f"SymBool({self.t})"

    @property
    def __class__(self):
        return bool


def _ti(x):
    if type(x) is SymInt:
        return x.t
    if type(x) is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool) or isinstance(x, int):
        return z3.IntVal(int(x))
    return NotImplemented


class SymInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f):
        o = _ti(o)
        if o is NotImplemented:
            return NotImplemented
        return SymInt(f(self.t, o))

    def _cmp(self, o, f):
        o = _ti(o)
        if o is NotImplemented:
            return NotImplemented
        return SymBool(f(self.t, o))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.t)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def conc(self):
        return _CTX.concretise(self.t)

    def __hash__(self):
        return hash(self.conc())

    def __index__(self):
        return self.conc()

    __int__ = __index__

    def __bool__(self):
        return _CTX.decide(self.t != 0)

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __str__(self):
        return str(self.conc())

    __repr__ = __str__

    @property
    def __class__(self):
        return int


class SymEnum:
    """A symbolic choice among concrete Python objects.

    Identity/equality tests against concrete objects yield symbolic booleans (one two-way fork,
    not one fork per option); anything else concretises (an exhaustive n-way fork).
    """

    __slots__ = ("_sx_t", "_sx_o", "_sx_c")

    def __init__(self, t, options):
        object.__setattr__(self, "_sx_t", t)
        object.__setattr__(self, "_sx_o", options)
        object.__setattr__(self, "_sx_c", {})

    def _sx_conc(self):
        return self._sx_o[_CTX.concretise(self._sx_t)]

    def _sx_is(self, o):
        if type(o) is SymEnum:
            if o._sx_t is self._sx_t:
                return SymBool(z3.BoolVal(True))
            ps = [
                z3.And(self._sx_t == i, o._sx_t == j)
                for i, a in enumerate(self._sx_o)
                for j, b in enumerate(o._sx_o)
                if a is b
            ]
        else:
            hit = self._sx_c.get(id(o))
            if hit is not None and hit[0] is o:
                return hit[1]
            ps = [self._sx_t == i for i, a in enumerate(self._sx_o) if a is o]
            r = SymBool(z3.simplify(z3.Or(*ps))) if ps else False
            self._sx_c[id(o)] = (o, r)
            return r
        if not ps:
            return False
        return SymBool(z3.simplify(z3.Or(*ps)))

    def __eq__(self, o):
        if type(o) is SymEnum:
            ps = [
                z3.And(self._sx_t == i, o._sx_t == j)
                for i, a in enumerate(self._sx_o)
                for j, b in enumerate(o._sx_o)
                if a == b
            ]
        else:
            ps = [self._sx_t == i for i, a in enumerate(self._sx_o) if a == o]
        return SymBool(z3.simplify(z3.Or(*ps))) if ps else SymBool(z3.BoolVal(False))

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        return hash(self._sx_conc())

    def __bool__(self):
        return bool(self._sx_conc())

    def __getattr__(self, name):
        return getattr(self._sx_conc(), name)

    def __str__(self):
        return str(self._sx_conc())

    def __repr__(self):
        return repr(self._sx_conc())

    def __format__(self, spec):
        return format(self._sx_conc(), spec)

    def __call__(self, *a, **k):
        return self._sx_conc()(*a, **k)

    def __lt__(self, o):
        return self._sx_conc() < conc(o)

    def __le__(self, o):
        return self._sx_conc() <= conc(o)

    def __gt__(self, o):
        return self._sx_conc() > conc(o)

    def __ge__(self, o):
        return self._sx_conc() >= conc(o)

    def __index__(self):
        return self._sx_conc().__index__()

    def __iter__(self):
        return iter(self._sx_conc())

    @property
    def __class__(self):
        cs = {o.__class__ for o in self._sx_o}
        if len(cs) == 1:
            return next(iter(cs))
        return self._sx_conc().__class__


_PROXIES = (SymBool, SymInt, SymEnum)


def sym_is(a, b):
    """Replacement for ``a is b`` in instrumented code."""
    ta = type(a)
    tb = type(b)
    if ta is SymEnum:
        return a._sx_is(b)
    if tb is SymEnum:
        return b._sx_is(a)
    if ta is SymBool or tb is SymBool:
        if isinstance(a, bool) and isinstance(b, bool):
            return s_iff(a, b)
        return False
    return a is b


def sym_is_not(a, b):
    r = sym_is(a, b)
    if type(r) is SymBool:
        return s_not(r)
    return not r


def conc(x):
    """Concrete value of x (forks over the feasible values when x is symbolic)."""
    t = type(x)
    if t is SymEnum:
        return x._sx_conc()
    if t is SymInt:
        return x.conc()
    if t is SymBool:
        return bool(x)
    return x


# --------------------------------------------------------------------------------------------
# formula helpers (work on plain values, proxies and z3 terms alike)


def _tb(x):
    if type(x) is SymBool:
        return x.t
    if isinstance(x, z3.ExprRef):
        return x
    return z3.BoolVal(bool(x))


def _wrapb(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def _is_sym(*xs):
    return any(type(x) in _PROXIES or isinstance(x, z3.ExprRef) for x in xs)


def s_and(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if not _is_sym(*xs):
        return all(xs)
    return _wrapb(z3.And(*[_tb(x) for x in xs]))


def s_or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if not _is_sym(*xs):
        return any(xs)
    return _wrapb(z3.Or(*[_tb(x) for x in xs]))


def s_not(x):
    if not _is_sym(x):
        return not x
    return _wrapb(z3.Not(_tb(x)))


def s_iff(a, b):
    if not _is_sym(a, b):
        return bool(a) == bool(b)
    return _wrapb(_tb(a) == _tb(b))


def s_implies(a, b):
    if not _is_sym(a, b):
        return (not a) or bool(b)
    return _wrapb(z3.Implies(_tb(a), _tb(b)))


def s_eq(a, b):
    """Equality of ints/bools/enum choices as a formula."""
    if type(a) is SymEnum or type(b) is SymEnum:
        return (a == b) if type(a) is SymEnum else (b == a)
    if type(a) is SymBool or type(b) is SymBool:
        return s_iff(a, b)
    if _is_sym(a, b):
        return _wrapb(_ti(a) == _ti(b))
    return a == b


def s_is(a, b):
    return sym_is(a, b)


def s_ite(c, a, b):
    """Integer-valued if-then-else."""
    if not _is_sym(c):
        return a if c else b
    if not _is_sym(a, b) and a == b:
        return a
    return SymInt(z3.simplify(z3.If(_tb(c), _ti(a), _ti(b))))


def s_max(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = s_ite(x > r, x, r)
    return r


# --------------------------------------------------------------------------------------------
# contexts


class Ctx:
    """Symbolic context: one instance per explored path."""

    concrete = False

    def __init__(self, engine, prefix):
        self.engine = engine
        self.prefix = prefix
        self.pos = 0
        self.trace = []  # values of the decisions taken
        self.alts = []  # prefixes still to be explored
        self.vars = {}  # name -> (term, lo, hi)
        self.solver = engine.solver
        self.pc = []
        self.constrained = set()
        self.known = {}
        self.counters = []
        self.obligations = 0
        self.trivial = 0
        self.tags = set()
        self.notes = []

    # ---- variables
    def _newvar(self, name, lo, hi):
        if name in self.vars:
            raise EngineError(f"duplicate symbolic variable {name}")
        if hi - lo < 0:
            raise EngineError(f"empty domain for {name}")
        t = z3.Int(name)
        self.vars[name] = (t, lo, hi)
        self.solver.add(t >= lo, t <= hi)
        return t

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = SymInt(self._newvar(name, lo, hi))
        return v.conc() if EAGER else v

    def bool(self, name):
        v = SymBool(self._newvar(name, 0, 1) == 1)
        return bool(v) if EAGER else v

    def enum(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = SymEnum(self._newvar(name, 0, len(options) - 1), options)
        return v._sx_conc() if EAGER else v

    def pick(self, name, options):
        """Symbolic choice, immediately concretised (exhaustive fork)."""
        return conc(self.enum(name, options))

    def flag(self, name):
        """Symbolic boolean, immediately decided (two-way fork)."""
        return bool(self.bool(name))

    def assume(self, cond):
        if not _is_sym(cond):
            if not cond:
                raise PathInfeasible
            return
        t = _tb(cond)
        self._add(t)
        self.engine.queries += 1
        if self._check() != z3.sat:
            raise PathInfeasible

    # ---- counters: "at which step does it happen", asked once per step
    def counter(self, name, first, last):
        """A symbolic step number; ask ``reached`` for first, first+1, ... until it answers True."""
        c = [self._newvar(name, 0, last), first - 1, -1]
        self.counters.append(c)
        return c

    def reached(self, c, step):
        t = c[0]
        if self.pos < len(self.prefix):
            v = bool(self.prefix[self.pos])
        else:
            self.engine.queries += 2
            now, later = self._check(t == step) == z3.sat, self._check(t > step) == z3.sat
            if now and later:
                self.alts.append(tuple(self.trace) + (1,))
            elif not now and not later:
                raise PathInfeasible
            v = not later
        self.trace.append(int(v))
        self.pos += 1
        if v:
            self.counters = [x for x in self.counters if x is not c]
            self._add(t == step)
        else:
            c[1] = step
        return v

    def _flush(self):
        for c in self.counters:
            if c[1] > c[2]:
                c[2] = c[1]
                self._add(c[0] > c[1])

    # ---- decisions
    def _check(self, *assumptions):
        if self.counters:
            self._flush()
        t0 = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.engine.solver_s += time.perf_counter() - t0
        if r == z3.unknown:
            raise EngineError("solver returned unknown")
        return r

    def _add(self, t):
        self.solver.add(t)
        self.pc.append(t)

    def decide(self, t):
        k = self.known.get(t.get_id())
        if k is not None:
            return k[0]
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        key = s.get_id()
        k = self.known.get(key)
        if k is not None:
            return k[0]
        if self.pos < len(self.prefix):
            v = bool(self.prefix[self.pos])
        else:
            eng = self.engine
            eng.queries += 2
            neg = z3.Not(s)
            can_t = self._check(s) == z3.sat
            can_f = (not can_t) or self._check(neg) == z3.sat
            if can_t and can_f:
                self.alts.append(tuple(self.trace) + (0,))
                v = True
            elif can_t:
                v = True
            elif can_f:
                v = False
            else:
                raise PathInfeasible
            if not (can_t and can_f):
                # implied by the path condition: no decision to record
                self.known[key] = (v, s)
                self._record_implied()
                self.trace.append(int(v))
                self.pos += 1
                return v
        self.trace.append(int(v))
        self.pos += 1
        self._add(s if v else z3.Not(s))
        self.known[key] = (v, s)
        return v

    def _record_implied(self):
        self.engine.implied += 1

    def concretise(self, t):
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        key = ("c", s.get_id())
        k = self.known.get(key)
        if k is not None:
            return k[0]
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            vals = []
            self.solver.push()
            while True:
                self.engine.queries += 1
                if self._check() != z3.sat:
                    break
                m = self.solver.model()
                v = m.eval(s, model_completion=True).as_long()
                vals.append(v)
                self.solver.add(s != v)
                if len(vals) > 512:
                    self.solver.pop()
                    raise EngineError(f"unbounded concretisation of {s}")
            self.solver.pop()
            if not vals:
                raise PathInfeasible
            vals.sort()
            base = tuple(self.trace)
            for w in reversed(vals[1:]):
                self.alts.append(base + (w,))
            v = vals[0]
        self.trace.append(v)
        self.pos += 1
        self._add(s == v)
        self.known[key] = (v, s)
        return v

    # ---- obligations
    def model_dict(self, extra=None):
        r = self._check(*([extra] if extra is not None else []))
        if r != z3.sat:
            return None
        m = self.solver.model()
        return {
            n: m.eval(t, model_completion=True).as_long() for n, (t, lo, hi) in self.vars.items()
        }

    def check(self, cond, msg, detail=None):
        """Obligation: cond holds for every assignment satisfying the path condition."""
        self.obligations += 1
        if not _is_sym(cond):
            if cond:
                self.trivial += 1
                return
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(_tb(cond))
        self.engine.queries += 1
        if self._check(neg) == z3.sat:
            model = self.model_dict(neg)
            if callable(msg):
                msg = msg()
            raise Violation(str(msg), model, detail)

    def reach(self, tag):
        self.tags.add(tag)

    def note(self, *a):
        pass


class ConcreteCtx:
    """Replay context: every variable takes its value from a model; no solver, no proxies."""

    concrete = True

    def __init__(self, model):
        self.model = dict(model)
        self.tags = set()
        self.obligations = 0
        self.log = []
        self.used = {}

    def _val(self, name, lo):
        v = self.model.get(name, lo)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        return self._val(name, lo)

    def counter(self, name, first, last):
        return self._val(name, last)

    def reached(self, c, step):
        return c == step

    def bool(self, name):
        return bool(self._val(name, 0))

    def enum(self, name, options):
        options = list(options)
        return options[self._val(name, 0)] if len(options) > 1 else options[0]

    pick = enum

    def flag(self, name):
        return self.bool(name)

    def assume(self, cond):
        if not cond:
            raise PathInfeasible

    def check(self, cond, msg, detail=None):
        self.obligations += 1
        if not cond:
            if callable(msg):
                msg = msg()
            raise Violation(str(msg), self.model, detail)

    def reach(self, tag):
        self.tags.add(tag)

    def note(self, *a):
        self.log.append(" ".join(str(x) for x in a))


# --------------------------------------------------------------------------------------------


def _alarm(_s, _f):
    raise PathTimeout


class Engine:
    """Explores all paths below a set of decision prefixes."""

    def __init__(self, harness, path_timeout=20.0):
        self.harness = harness
        self.path_timeout = path_timeout
        self.solver = z3.Solver()
        self.queries = 0
        self.solver_s = 0.0
        self.implied = 0
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.obligations = 0
        self.trivial = 0
        self.tags = {}
        self.violations = []
        self.models = []  # sampled (model) of passing paths
        self.assign = 0  # assignments covered (approx: product of domains of unfixed vars)

    def run_path(self, prefix, keep_model=False):
        global _CTX
        from . import loader

        self.solver.push()
        ctx = Ctx(self, prefix)
        _CTX = ctx
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
            try:
                loader.reset_process_state()
                self.harness(ctx)
            except PathInfeasible:
                self.infeasible += 1
                return ctx.alts
            except Violation as v:
                self.violations.append(
                    {"msg": v.msg, "model": v.model, "detail": v.detail, "prefix": list(ctx.trace)}
                )
            except EngineError:
                raise
            except PathTimeout:
                signal.setitimer(signal.ITIMER_REAL, 0)
                self.violations.append(
                    {
                        "msg": f"did not terminate within {self.path_timeout}s",
                        "model": ctx.model_dict(),
                        "detail": "timeout",
                        "prefix": list(ctx.trace),
                    }
                )
            except Exception as e:  # code under test raised where the harness expects none
                self.violations.append(
                    {
                        "msg": f"unexpected {type(e).__name__}: {e}",
                        "model": ctx.model_dict(),
                        "detail": traceback.format_exc()[-3000:],
                        "prefix": list(ctx.trace),
                    }
                )
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            self.paths += 1
            self.decisions += len(ctx.trace)
            self.obligations += ctx.obligations
            self.trivial += ctx.trivial
            for t in ctx.tags:
                self.tags[t] = self.tags.get(t, 0) + 1
            if keep_model:
                m = ctx.model_dict()
                self.models.append(m)
            return ctx.alts
        finally:
            _CTX = None
            self.solver.pop()
