"""C15: open generics choose the most specific valid registration."""
from __future__ import annotations

import inspect
from types import new_class
from typing import Annotated, Any, Generic, TypeVar

from ..core import Harness, Property
from ..world import PK, KO, aoutcome, outcome


class Base:
    pass


class Derived(Base):
    pass


T = TypeVar("T")
U = TypeVar("U")
TB = TypeVar("TB", bound=Base)
TC = TypeVar("TC", int, str)
TL = TypeVar("TL", bound=list)

# terms: ("P", a, b) | ("G", a) | ("list", a) | leaf name | TypeVar name
VARS = {"T": T, "U": U, "TB": TB, "TC": TC, "TL": TL}
LEAVES = {"int": int, "str": str, "bool": bool, "None": None, "Base": Base, "Derived": Derived}


def unify(t, q, m):
    if isinstance(t, str):
        if t in VARS:
            if t in m:
                return m[t] == q
            m[t] = q
            return True
        return t == q
    return not isinstance(q, str) and t[0] == q[0] and len(t) == len(q) and all(unify(a, b, m) for a, b in zip(t[1:], q[1:]))


def valid(m):
    for v, q in m.items():
        if v == "TB" and q not in ("Base", "Derived"):
            return False
        if v == "TC" and q not in ("int", "str", "bool"):  # bool is an int
            return False
        if v == "TL" and not (isinstance(q, tuple) and q[0] == "list"):
            return False
    return True


def weight(t):
    """How much of the key a registration fixes."""
    if isinstance(t, str):
        return 0 if t in VARS else 2
    return 1 + sum(weight(a) for a in t[1:])


PT = [("P", "T", "U"), ("P", "U", "T"), ("P", "T", "T"), ("P", "int", "U"), ("P", "T", "int"), ("P", ("G", "T"), "U"), ("P", "T", ("G", "T")), ("P", ("G", "int"), "U"),
      ("P", "TB", "U"), ("P", "T", "TC"), ("P", "TC", "TC"), ("P", ("list", "T"), "T"), ("P", "TL", "U"), ("P", ("G", "TB"), "U")]
PQ = [("P", "int", "int"), ("P", "int", "str"), ("P", "str", "int"), ("P", "Derived", "int"), ("P", "Base", "Base"), ("P", ("G", "int"), "int"), ("P", "int", ("G", "int")),
      ("P", ("G", "int"), ("G", "int")), ("P", ("G", "Derived"), "str"), ("P", ("list", "int"), "int"), ("P", ("list", "int"), ("list", "str")), ("P", "bool", "bool"), ("P", "None", "None"),
      ("P", "None", "str")]


def match(ctx, nregs, templates, queries, closed, uses, comps, apis, kinds, lifes, rereg, queries_n):
    from diwire import (
        Component, Container, DependencyRegistrationPolicy, Injected, Lifetime, Maybe, MissingPolicy, Provider, ResolverContext, Scope,
    )
    from diwire.exceptions import DIWireDependencyNotRegisteredError, DIWireInvalidGenericTypeArgumentError

    G = new_class("G", (Generic[T],))
    P = new_class("P", (Generic[T, U],))
    CLS = {"G": G, "P": P, "list": list}

    def ty(t):
        if isinstance(t, str):
            return VARS[t] if t in VARS else LEAVES[t]
        args = tuple(ty(a) for a in t[1:])
        return CLS[t[0]][args if len(args) > 1 else args[0]]

    def arg(t):
        return type(None) if t == "None" else ty(t)

    def tvars(t):
        if isinstance(t, str):
            return [t] if t in VARS else []
        r = []
        for a in t[1:]:
            r += [x for x in tvars(a) if x not in r]
        return r

    rc = ResolverContext()
    c = Container(missing_policy=MissingPolicy.ERROR, resolver_context=rc, use_resolver_context=False,
                  dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)
    life = getattr(Lifetime, ctx.pick("life", lifes))

    class V:
        def __init__(self, reg, args):
            self.reg, self.args = reg, args

    regs = []  # (term, comp, id)
    n = 0

    def register(t, comp):
        nonlocal n
        n += 1
        i = n
        vs = tvars(t)
        kind = ctx.pick(f"reg{i}.kind", kinds)
        # parameters asking for the type arguments, as type[T] and as bare T
        params = [inspect.Parameter(f"a{v}", PK, annotation=type[VARS[v]] if j % 2 == 0 else VARS[v]) for j, v in enumerate(vs)]

        def f(**kw):
            return V(i, kw)
        if kind == "gen":
            def f(**kw):
                yield V(i, kw)
        if kind == "afn":
            async def f(**kw):
                return V(i, kw)
        if kind == "cls":
            def __init__(self, **kw):
                self.reg, self.args = i, kw
            __init__.__signature__ = inspect.Signature([inspect.Parameter("self", PK), *params])
            __init__.__annotations__ = {p.name: p.annotation for p in params}
            k = new_class(f"Impl{i}", (P[tuple(ty(a) for a in t[1:])],) if vs else (P[tuple(ty(a) for a in t[1:])],))
            k.__init__ = __init__
            f = k
        else:
            f.__signature__ = inspect.Signature(params)
            f.__annotations__ = {p.name: p.annotation for p in params}
        key = ty(t)
        where = dict(provides=Annotated[key, "m", Component(comp)] if comp else key)
        if kind == "gen":
            c.add_generator(f, lifetime=life, **where)
        elif kind == "cls":
            c.add(f, lifetime=life, **where)
        else:
            c.add_factory(f, lifetime=life, **where)
        regs[:] = [x for x in regs if not (x[0] == t and x[1] == comp)]
        regs.append((t, comp, i))

    chosen = []
    for i in range(nregs):
        j = ctx.pick(f"t{i}", list(range(len(templates))))
        if not rereg and j in chosen:
            return
        chosen.append(j)
        register(templates[j], ctx.pick(f"c{i}", comps))
        if ctx.pick(f"closed{i}", closed):
            register(ctx.pick(f"closed{i}.key", queries[:2]), ctx.pick(f"closed{i}.comp", comps))
    use = ctx.pick("use", uses)
    api = ctx.pick("api", apis)
    for s in range(queries_n):
        q = ctx.pick(f"q{s}", queries)
        comp = ctx.pick(f"q{s}.comp", comps)
        key = Annotated[ty(q), Component(comp)] if comp else ty(q)
        exact = [r for r in regs if r[0] == q and r[1] == comp]
        cands = []
        bad = False
        for t, k, i in regs:
            m = {}
            if k != comp or not tvars(t) or not unify(t, q, m):
                continue
            if valid(m):
                cands.append((weight(t), i, m))
            else:
                bad = True
        if exact:
            exp = (exact[0][2], {})
        elif cands:
            _w, i, m = max(cands, key=lambda x: (x[0], x[1]))
            exp = (i, {f"a{v}": arg(a) for v, a in m.items()})
        else:
            exp = None
        ctx.reach("closed" if exact else "open" if cands else "invalid" if bad else "none")

        h = c.enter_scope(Scope.REQUEST) if use == "scope" else c
        if use in ("direct", "scope"):
            r = outcome(lambda: h.resolve(key)) if api == "resolve" else aoutcome(lambda: h.aresolve(key))
        elif use == "maybe":
            r = outcome(lambda: h.resolve(Maybe[key])) if api == "resolve" else aoutcome(lambda: h.aresolve(Maybe[key]))
        elif use == "provider":
            r = outcome(lambda: h.resolve(Provider[key])())
        elif use == "injected":
            def g(x):
                return x
            g.__annotations__ = {"x": Injected[key]}
            r = outcome(lambda: rc.inject(g)(diwire_resolver=c))
        elif use == "dependency":
            # an open consumer asks for a key built from its own argument
            W = new_class("W", (Generic[T],))
            if not isinstance(q[1], str) or q[1] == "None":
                return

            def w(x):
                return x
            tmpl = P[T, arg(q[2])]
            w.__annotations__ = {"x": Annotated[tmpl, Component(comp)] if comp else tmpl}
            c.add_factory(w, provides=W[T], lifetime=Lifetime.TRANSIENT)
            wk = W[arg(q[1])]
            r = outcome(lambda: c.resolve(wk)) if api == "resolve" else aoutcome(lambda: c.aresolve(wk))
        if exp is None:
            if use == "maybe" and not bad:
                ctx.check(r == ("ok", None), lambda: f"{key} is not registered: {r!r}")
            elif bad:
                ctx.check(r[0] == "exc" and isinstance(r[1], DIWireInvalidGenericTypeArgumentError), lambda: f"{key}: every matching registration rejects it, got {r!r}")
            else:
                ctx.check(r[0] == "exc" and isinstance(r[1], DIWireDependencyNotRegisteredError) and not isinstance(r[1], DIWireInvalidGenericTypeArgumentError),
                          lambda: f"{key}: nothing matches, got {r!r}")
            continue
        ctx.check(r[0] == "ok", lambda: f"{key}: {r!r}")
        v = r[1]
        ctx.check(v.reg == exp[0], lambda: f"{key}: expected registration {[x for x in regs if x[2] == exp[0]][0][0]}, got {[x for x in regs if x[2] == v.reg]}")
        ctx.check(v.args == exp[1], lambda: f"{key}: expected arguments {exp[1]}, got {v.args}")


Q = dict(nregs=2, templates=PT, queries=PQ, closed=[False], uses=["direct"], comps=[None], apis=["resolve"], kinds=["fn"], lifes=["TRANSIENT"], rereg=False, queries_n=1)

PROPERTY = Property(
    "C15",
    [
        Harness("pairs", match,
                "every ordered pair of 14 open templates (repeated, nested, bounded and constrained TypeVars) against 14 closed keys, resolve and aresolve",
                quick={**Q, "rereg": True, "apis": ["resolve", "aresolve"]}, thorough={**Q, "rereg": True, "nregs": 3, "apis": ["resolve"]},
                reach=("open", "invalid", "none")),
        Harness("triples", match,
                "every ordered triple of 14 templates against 8 closed keys",
                quick={**Q, "nregs": 3, "queries": [PQ[i] for i in (0, 1, 3, 4, 5, 9, 10, 11)]},
                thorough={**Q, "nregs": 4, "templates": [PT[i] for i in (0, 2, 3, 4, 5, 8, 10, 12)], "queries": [PQ[i] for i in (0, 1, 3, 4, 5, 9, 10, 11)]},
                reach=("open", "invalid", "none")),
        Harness("closed", match,
                "closed registrations (and components) mixed in at any position; two successive requests",
                quick={**Q, "templates": [PT[i] for i in (0, 2, 3, 10)], "queries": PQ[:4], "closed": [False, True], "comps": [None, "x"], "queries_n": 1},
                thorough={**Q, "templates": [PT[i] for i in (0, 2, 3, 10)], "queries": PQ[:4], "closed": [False, True], "comps": [None, "x"], "queries_n": 2},
                reach=("open", "closed", "none")),
        Harness("uses", match,
                "requests through a scope handle, Maybe, Provider, an injected callable and an open consumer; 4 provider kinds; both lifetimes",
                quick={**Q, "templates": [PT[i] for i in (0, 2, 3, 8)], "queries": [PQ[i] for i in (0, 1, 2, 3)], "uses": ["scope", "maybe", "provider", "injected", "dependency"],
                       "kinds": ["fn", "gen", "cls"], "lifes": ["TRANSIENT", "SCOPED"]},
                thorough={**Q, "templates": [PT[i] for i in (0, 2, 3, 8, 5)], "queries": PQ[:6], "uses": ["scope", "maybe", "provider", "injected", "dependency"],
                          "kinds": ["fn", "gen", "cls"], "lifes": ["TRANSIENT", "SCOPED"], "apis": ["resolve", "aresolve"]},
                reach=("open", "invalid", "none")),
        Harness("successive", match,
                "three successive requests for different closed keys never mix their arguments (SCOPED and TRANSIENT)",
                quick={**Q, "nregs": 1, "templates": PT, "queries": [PQ[i] for i in (0, 1, 5, 9, 11)], "queries_n": 3, "lifes": ["TRANSIENT", "SCOPED"]},
                thorough={**Q, "nregs": 2, "templates": PT[:6], "queries": [PQ[i] for i in (0, 1, 5, 9, 11)], "queries_n": 3, "lifes": ["TRANSIENT", "SCOPED"]},
                reach=("open", "invalid", "none")),
    ],
)
