"""C02: every provider parameter receives exactly the value its signature asks for."""
from __future__ import annotations

from dataclasses import dataclass, field, make_dataclass

from ..core import Harness, Property
from ..refmodel import do_resolve
from ..world import (
    KINDS_ASYNC, KO, P, PK, POS, VK, VP, Obj, World, make_class, make_provider, param, register,
    strict_container,
)

KINDS = {"POS": POS, "PK": PK, "VP": VP, "KO": KO, "VK": VK}
ORDER = ["POS", "PK", "VP", "KO", "VK"]


class Env:
    """Registers the dependency keys a provider under test may ask for."""

    def __init__(self, ctx, w, c, n, dep_kind, dep_life, dep_scope):
        self.w = w
        self.ctx = ctx
        self.D = []
        self.U = [make_class(f"U{i}") for i in range(n)]
        self.defaults = [object() for _ in range(n)]
        self.ctxkey = make_class("CtxKey")
        self.ctxval = object()
        self.star = make_class("Star")
        self.starval = (object(), object())
        self.map = make_class("Map")
        self.mapval = {"kx": object(), "ky": object()}
        self.multi = make_class("Multi")
        for i in range(n):
            K = make_class(f"D{i}")
            self.D.append(K)
            k = dep_kind if i == 0 else "fn"
            register(c, k, make_provider(w, f"D{i}", k, K), K, lifetime=dep_life, scope=dep_scope)
        sv, mv = self.starval, self.mapval

        def star():
            return sv

        def mapping():
            return mv

        c.add_factory(star, provides=self.star)
        c.add_factory(mapping, provides=self.map)
        register(c, "fn", make_provider(w, "M0", "fn", self.multi), self.multi)
        register(c, "fn", make_provider(w, "M1", "fn", self.multi), self.multi, component="m1")

    def make(self, i, kind, what):
        """(Parameter, explicit key or None, leaves the argument out, predicate on the value)"""
        from diwire import All, FromContext, Maybe, Provider

        name = f"p{i}"
        D, U, dflt = self.D[i], self.U[i], self.defaults[i]
        node = f"D{i}"

        def is_d(v):
            return getattr(v, "node", None) == node

        def is_default(v):
            return v is dflt

        if kind is VP:
            if what == "dep":
                return (param(name, self.star, kind), self.star, False,
                        lambda v: type(v) is tuple and len(v) == 2 and v[0] is self.starval[0] and v[1] is self.starval[1])
            if what == "all":
                return (param(name, All[self.multi], kind), All[self.multi], False,
                        lambda v: type(v) is tuple and [x.node for x in v] == ["M0", "M1"])
            if what == "maybeU":
                return (param(name, Maybe[U], kind), Maybe[U], True, lambda v: v == ())
            if what == "skip":
                return (param(name, P.empty, kind), None, True, lambda v: v == ())
            return None
        if kind is VK:
            if what == "dep":
                return (param(name, self.map, kind), self.map, False, lambda v: v == self.mapval)
            if what == "maybeU":
                return (param(name, Maybe[U], kind), Maybe[U], True, lambda v: v == {})
            if what == "skip":
                return (param(name, P.empty, kind), None, True, lambda v: v == {})
            return None
        if what == "dep":
            return param(name, D, kind), D, False, is_d
        if what == "depdef":
            return param(name, D, kind, dflt), D, False, is_d
        if what == "skip":
            return param(name, P.empty, kind, dflt), None, True, is_default
        if what == "maybeR":
            return param(name, Maybe[D], kind), Maybe[D], False, is_d
        if what == "maybeRdef":
            return param(name, Maybe[D], kind, dflt), Maybe[D], False, is_d
        if what == "maybeU":
            return param(name, Maybe[U], kind), Maybe[U], False, lambda v: v is None
        if what == "maybeUdef":
            return param(name, Maybe[U], kind, dflt), Maybe[U], True, is_default
        if what == "prov":
            return (param(name, Provider[D], kind), Provider[D], False,
                    lambda v: callable(v) and not isinstance(v, Obj))
        if what == "all":
            return (param(name, All[self.multi], kind), All[self.multi], False,
                    lambda v: type(v) is tuple and [x.node for x in v] == ["M0", "M1"])
        if what == "ctx":
            return param(name, FromContext[self.ctxkey], kind), FromContext[self.ctxkey], False, lambda v: v is self.ctxval
        raise AssertionError(what)


def wiring(ctx, n, whats, provs, dep_kinds, explicit, scopes, dep_scopes, opened=False):
    from types import new_class
    from typing import Generic, TypeVar

    from diwire import Lifetime, Scope

    w = World(ctx)
    lo = 0
    plan = []
    seen_default = False
    for i in range(n):
        opts = [k for k in ORDER[lo:]]
        kn = ctx.pick(f"p{i}.kind", opts)
        lo = ORDER.index(kn) + (1 if kn in ("VP", "VK") else 0)
        kind = KINDS[kn]
        what = ctx.pick(f"p{i}.what", whats if kind not in (VP, VK) else (
            [x for x in ("dep", "all", "maybeU", "skip") if (x in whats) and not (kind is VK and x == "all")]))
        has_default = what in ("depdef", "skip", "maybeRdef", "maybeUdef")
        if kind in (POS, PK):
            if seen_default and not has_default:
                return  # not a Python signature
            seen_default = seen_default or has_default
        plan.append((kind, what))
        if lo >= len(ORDER) and i + 1 < n:
            return
    prov_kind = ctx.pick("provider", provs)
    dep_kind = ctx.pick("dep", dep_kinds)
    scope = getattr(Scope, ctx.pick("scope", scopes))
    dep_scope = getattr(Scope, ctx.pick("dep_scope", dep_scopes))
    life = ctx.pick("life", [Lifetime.SCOPED, Lifetime.TRANSIENT])
    if life is Lifetime.SCOPED and dep_scope.level > scope.level:
        return  # scope mismatch: C03
    if any(x == "prov" for _, x in plan) and dep_scope.level > scope.level:
        return  # rejected at compile time (C23)
    if any(k in (VP, VK) and x == "prov" for k, x in plan):
        return
    mode = ctx.pick("deps", ["infer", "reversed", "wrong-annotations", "partial"] if explicit else ["infer"])
    c = strict_container()
    env = Env(ctx, w, c, n, dep_kind, Lifetime.SCOPED, dep_scope)
    params, keys, specs = [], {}, []
    gap = False  # an earlier positional-only parameter keeps its default
    pgap = False
    star = False
    for i, (kind, what) in enumerate(plan):
        p, key, left_out, pred = env.make(i, kind, what)
        if mode == "partial" and what == "depdef":
            dflt = p.default
            key, left_out, pred = None, True, lambda v, dflt=dflt: v is dflt
        if kind is POS:
            if gap and p.default is not P.empty:
                dflt = p.default
                # Python cannot skip a positional-only parameter: its successors keep their defaults
                # (an open-generic provider receives the skipped one's default explicitly)
                specs.append((p.name, lambda v, dflt=dflt, pred=pred: v is dflt or (opened and pred(v)), what))
            else:
                specs.append((p.name, pred, what))
            gap = gap or left_out
        else:
            specs.append((p.name, pred, what))
        if kind in (POS, PK):
            pgap = pgap or left_out or gap
        if kind is VP and what in ("dep", "all") and pgap:
            star = True
        if key is not None:
            q = p
            if mode == "wrong-annotations":
                p = p.replace(annotation=P.empty)
            keys[key] = q
        params.append(p)
    known = "[star after a defaulted positional] " if star and not opened else ""
    kw = {}
    if mode != "infer":
        kw["dependencies"] = dict(reversed(list(keys.items()))) if mode == "reversed" else keys
        if mode == "partial" and not any(x == "depdef" for _, x in plan):
            return
        if mode != "partial" and len(keys) != sum(1 for _, what in plan if what != "skip"):
            return  # the same key twice cannot be written as a mapping
        if mode == "reversed" and len(keys) < 2:
            return
    if opened:
        T = TypeVar("T")
        K = new_class("Box", (Obj, Generic[T]))
        req = K[int]
        prov = make_provider(w, "K", prov_kind, K[T] if prov_kind != "cls" else K, params, cls=K)
        if prov_kind == "cls":
            register(c, "cls", prov, K, lifetime=life, scope=scope, **kw)
        else:
            register(c, prov_kind, prov, K[T], lifetime=life, scope=scope, **kw)
    else:
        K = req = make_class("K")
        prov = make_provider(w, "K", prov_kind, K, params)
        register(c, prov_kind, prov, K, lifetime=life, scope=scope, **kw)
    root = c.compile()
    g = {env.ctxkey: env.ctxval}
    if 2 in (scope.level, dep_scope.level):
        root = root.enter_scope(Scope.SESSION)
    h1 = root.enter_scope(Scope.REQUEST, context=g)
    h2 = root.enter_scope(Scope.REQUEST, context=g)
    h3 = h2.enter_scope(Scope.ACTION, context=g)
    handles = [("req1", h1), ("req2", h2), ("act", h3)]
    if scope.level == 1 and any(x == "ctx" for _, x in plan):
        if life is Lifetime.SCOPED or opened or max(scope.level, dep_scope.level if any(
                x not in ("skip", "maybeU", "maybeUdef", "prov", "ctx", "all") for _, x in plan) else 1) == 1:
            return  # the root scope has no context here: C11
    asy = prov_kind in KINDS_ASYNC or dep_kind in KINDS_ASYNC
    for j, (hn, h) in enumerate(handles):
        r = do_resolve(h, req, asy or j == 1)
        ctx.check(r[0] == "ok", lambda: f"{known}resolve from {hn} failed: {type(r[1]).__name__}: {r[1]}")
        ctx.check(getattr(r[1], "node", None) == "K", lambda: f"{known}got {r[1]!r}")
        a = r[1].args
        for name, pred, what in specs:
            ctx.check(name in a and pred(a[name]),
                      lambda: f"{known}parameter {name} ({what}) received {a.get(name)!r}")
            if what == "prov":
                x = a[name]() if not (dep_kind in KINDS_ASYNC and name == "p0") else None
                ctx.check(x is None or getattr(x, "node", None) == "D" + name[1:],
                          lambda: f"{known}parameter {name} ({what}) produced {x!r}")
        ctx.reach("checked")


def dataclasses_(ctx):
    """Dataclass constructors: default factories, registered and unregistered field types."""
    from diwire import Container, DependencyRegistrationPolicy, Lifetime, Maybe, MissingPolicy, Scope

    w = World(ctx)
    c = strict_container()
    A, B, U = make_class("A"), make_class("B"), make_class("U")
    register(c, "fn", make_provider(w, "A", "fn", A), A)
    register(c, "fn", make_provider(w, "B", "fn", B), B)
    made = []

    def factory():
        o = object()
        made.append(o)
        return o

    fields = []
    want = []
    for i in range(3):
        what = ctx.pick(f"f{i}", ["A", "B", "factory-unreg", "factory-reg", "maybe-factory", "init-false"])
        kwo = ctx.flag(f"f{i}.kw")
        n = f"f{i}"
        if what in "AB":
            fields.append((n, A if what == "A" else B, field(kw_only=kwo)))
            want.append((n, lambda v, what=what: v.node == what))
        elif what == "factory-unreg":
            fields.append((n, U, field(default_factory=factory, kw_only=kwo)))
            want.append((n, lambda v: v in made))
        elif what == "factory-reg":
            fields.append((n, A, field(default_factory=factory, kw_only=kwo)))
            want.append((n, lambda v: getattr(v, "node", None) == "A"))
        elif what == "maybe-factory":
            fields.append((n, Maybe[U], field(default_factory=factory, kw_only=kwo)))
            want.append((n, lambda v: v in made))
        else:
            fields.append((n, A, field(init=False, default=17, kw_only=kwo)))
            want.append((n, lambda v: v == 17))
    try:
        D = make_dataclass("Dc", fields)
    except TypeError:
        return
    c.add(D, lifetime=ctx.pick("life", [Lifetime.SCOPED, Lifetime.TRANSIENT]), scope=Scope.REQUEST)
    h = c.compile().enter_scope()
    for asy in (False, True):
        r = do_resolve(h, D, asy)
        ctx.check(r[0] == "ok", lambda: f"failed: {r[1]!r}")
        for n, pred in want:
            ctx.check(pred(getattr(r[1], n)), lambda: f"field {n} is {getattr(r[1], n)!r}")
    ctx.reach("checked")


W3 = ["dep", "depdef", "skip", "maybeUdef"]
WALL = ["dep", "depdef", "skip", "maybeR", "maybeRdef", "maybeU", "maybeUdef", "prov", "all", "ctx"]
ALLK = ["cls", "fn", "gen", "cm", "afn", "agen", "acm"]

PROPERTY = Property(
    "C02",
    [
        Harness(
            "two", wiring,
            "2 parameters of every kind x 10 dependency forms, 7 provider kinds, dependency sync/async, 2 scopes, "
            "inferred; resolved from 3 handles with both APIs",
            quick=dict(n=2, whats=WALL, provs=["cls", "gen", "afn"], dep_kinds=["fn", "afn"], explicit=False,
                       scopes=["REQUEST"], dep_scopes=["APP", "REQUEST"]),
            thorough=dict(provs=ALLK, scopes=["APP", "SESSION", "REQUEST"], dep_scopes=["APP", "SESSION", "REQUEST"],
                          dep_kinds=["fn", "cls", "gen", "afn", "acm"]),
            reach=("checked",),
        ),
        Harness(
            "three", wiring,
            "3 parameters of every kind and order, dependency/defaulted/skipped/missing optional",
            quick=dict(n=3, whats=W3, provs=["fn", "agen"], dep_kinds=["fn"], explicit=False,
                       scopes=["REQUEST"], dep_scopes=["APP"]),
            thorough=dict(whats=W3 + ["maybeU", "all", "maybeR"], provs=ALLK, dep_kinds=["fn", "afn"],
                          dep_scopes=["APP", "REQUEST"]),
            reach=("checked",),
        ),
        Harness(
            "kinds", wiring,
            "2 parameters, every provider kind, scope and dependency scope",
            quick=dict(n=2, whats=["dep", "skip"], provs=ALLK, dep_kinds=["cls", "afn"], explicit=False,
                       scopes=["APP", "SESSION", "REQUEST"], dep_scopes=["APP", "SESSION", "REQUEST"]),
            reach=("checked",),
        ),
        Harness(
            "explicit", wiring,
            "2-3 parameters with explicit dependencies given in another order or replacing missing annotations",
            quick=dict(n=3, whats=["dep", "depdef", "skip", "maybeUdef"], provs=["cls", "fn"], dep_kinds=["fn"], explicit=True,
                       scopes=["REQUEST"], dep_scopes=["APP"]),
            thorough=dict(provs=ALLK, dep_kinds=["fn", "afn"]),
            reach=("checked",),
        ),
        Harness(
            "open", wiring,
            "the same for providers of an open generic key",
            quick=dict(n=2, whats=WALL, provs=["cls", "fn", "gen", "afn"], dep_kinds=["fn"], explicit=False,
                       scopes=["REQUEST"], dep_scopes=["APP"], opened=True),
            thorough=dict(provs=ALLK, dep_kinds=["fn", "afn"], explicit=True, scopes=["APP", "REQUEST"],
                          dep_scopes=["APP", "REQUEST"]),
            reach=("checked",),
        ),
        Harness("dataclass", dataclasses_, "3 dataclass fields of 6 forms, keyword-only or not", quick=dict(), reach=("checked",)),
    ],
    outside="signatures of more than 3 parameters; parameter names that are not identifiers; C-implemented callables",
)
