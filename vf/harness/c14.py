"""C14: metadata other than Component never changes a key's identity."""
from __future__ import annotations

import inspect
from types import new_class
from typing import Annotated, Any, Generic, TypeVar

from ..core import Harness, Property
from ..world import KO, PK, aoutcome, make_class, outcome


class OddEq:
    """Metadata whose equality must not matter (hashable, equal to everything)."""

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 7


def spellings(component):
    """name -> builder(base, component value or None); every one denotes the same key."""
    def build(layout):
        def f(base, comp):
            k = base
            for layer in layout:
                meta = tuple(component(comp) if isinstance(x, str) and x == "C" else x for x in layer if not (isinstance(x, str) and x == "C" and comp is None))
                if meta:
                    k = Annotated[(k, *meta)]
            return k
        return f

    return {
        "exact": build([["C"]]),
        "pre": build([["m", "C"]]),
        "post": build([["C", "m"]]),
        "inner-meta": build([["m"], ["C"]]),
        "outer-meta": build([["C"], ["m"]]),
        "many": build([[1, "m", "C", None, int]]),
        "deep": build([["a"], ["b", "C"], ["c"], [("d",)]]),
        "oddeq": build([[OddEq(), "C", OddEq()]]),
        "list": build([["C", ["u"]]]),
        "dict-first": build([[{"u": 1}, "C"]]),
        "docs": build([["C"], [lambda x: x > 0, slice(1)]]),
    }


def normalise(ctx, regs, bases, comps, rspells, qspells, uses, hows, modes, marks, entries, consumers=("resolve", "aresolve", "param", "kwonly", "dependencies", "injected", "injected-async")):
    from diwire import (
        All, AsyncProvider, Component, Container, DependencyRegistrationPolicy, FromContext, Injected, Lifetime, Maybe, MissingPolicy, Provider,
        ResolverContext, Scope,
    )
    from diwire.exceptions import DIWireDependencyNotRegisteredError

    rc = ResolverContext()
    c = Container(missing_policy=MissingPolicy.ERROR, resolver_context=rc, use_resolver_context=ctx.pick("mode", modes) == "context",
                  dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)
    T = TypeVar("T")
    G = new_class("G", (Generic[T],))
    BASE = {"A": make_class("A"), "B": make_class("B"), "G[int]": G[int], "G[str]": G[str], "int": int, "list[int]": list[int], "opt": int | None}
    sp = spellings(Component)
    values = {}  # (base, comp) -> object
    use = ctx.pick("use", uses)

    class V:
        pass

    for i in range(regs):
        b, k = ctx.pick(f"reg{i}.base", bases), ctx.pick(f"reg{i}.comp", comps)
        key = sp[ctx.pick(f"reg{i}.spell", rspells)](BASE[b], k)
        v = V()
        how = ctx.pick(f"reg{i}.how", hows) if use != "ctx" else None
        if use == "ctx":
            values[(b, k)] = (v, key)
            continue

        def f(v=v):
            return v
        f.__signature__ = inspect.Signature([])
        if how == "instance":
            r = outcome(lambda: c.add_instance(v, provides=key))
        elif how == "factory":
            r = outcome(lambda: c.add_factory(f, provides=key, lifetime=Lifetime.TRANSIENT))
        elif how == "return":
            f.__annotations__ = {"return": key}
            f.__signature__ = inspect.Signature([], return_annotation=key)
            r = outcome(lambda: c.add_factory(f, lifetime=Lifetime.TRANSIENT))
        elif how == "component=":
            if k is None:
                return
            r = outcome(lambda: c.add_factory(f, provides=sp["outer-meta"](BASE[b], None), component=k, lifetime=Lifetime.TRANSIENT))
        elif how == "decorated":
            c.add_instance(object(), provides=sp["exact"](BASE[b], k))

            def d(inner, v=v):
                return v
            d.__signature__ = inspect.Signature([inspect.Parameter("inner", PK, annotation=key)], return_annotation=key)
            d.__annotations__ = {"inner": key, "return": key}
            r = outcome(lambda: c.decorate(provides=key, decorator=d, inner_parameter="inner"))
        ctx.check(r[0] == "ok", lambda: f"registering {key} ({how}) raised {r[1]!r}")
        values[(b, k)] = (v, key)

    qb, qk = ctx.pick("q.base", bases), ctx.pick("q.comp", comps)
    q = sp[ctx.pick("q.spell", qspells)](BASE[qb], qk)
    exp = values.get((qb, qk), (None,))[0]
    ctx.reach("hit" if exp is not None else "miss")
    mark = ctx.pick("mark", marks)
    outer = ctx.flag("outer")  # more metadata outside the marker
    MARK = {"": lambda x: x, "Maybe": lambda x: Maybe[x], "Provider": lambda x: Provider[x], "AsyncProvider": lambda x: AsyncProvider[x], "All": lambda x: All[x],
            "FromContext": lambda x: FromContext[x], "MaybeContext": lambda x: Maybe[FromContext[x]], "MaybeProvider": lambda x: Maybe[Provider[x]]}
    if use == "ctx":
        if mark not in ("FromContext", "MaybeContext"):
            return
    elif mark in ("FromContext", "MaybeContext"):
        return
    if mark == "AsyncProvider" and exp is None or mark == "Provider" and exp is None or mark == "MaybeProvider":
        # an unregistered provider target is refused on compilation
        pass
    ask = MARK[mark](q)
    if outer:
        ask = Annotated[ask, "outer", ("z",)]
    w = ctx.pick("consumer", list(consumers))

    class U:
        pass

    def u(x):
        o = U()
        o.x = x
        return o

    if w == "kwonly":
        def u(*, x):
            o = U()
            o.x = x
            return o
    if w in ("param", "kwonly"):
        u.__annotations__ = {"x": ask, "return": U}
        r = outcome(lambda: c.add_factory(u, provides=U, scope=Scope.REQUEST if use == "ctx" else Scope.APP, lifetime=Lifetime.TRANSIENT))
    elif w == "dependencies":
        r = outcome(lambda: c.add_factory(u, provides=U, scope=Scope.REQUEST if use == "ctx" else Scope.APP, lifetime=Lifetime.TRANSIENT, dependencies={ask: inspect.signature(u).parameters["x"]}))
        if r[0] == "exc" and isinstance(r[1], TypeError) and _unhashable(ask):
            return  # a dict cannot hold an unhashable key
    elif w == "injected":
        def u(x):
            return x
        u.__annotations__ = {"x": Injected[ask]}
        r = outcome(lambda: rc.inject(u))
    elif w == "injected-async":
        async def u(x):
            return x
        u.__annotations__ = {"x": Injected[ask]}
        r = outcome(lambda: rc.inject(u))
    else:
        r = ("ok", None)
    ctx.check(r[0] == "ok", lambda: f"declaring a dependency on {ask} raised {r[1]!r}")
    fn = r[1]

    ctxmap = None
    if use == "ctx":
        try:
            ctxmap = {key: v for v, key in values.values()}
        except TypeError:
            return  # an unhashable key cannot be put in a mapping
    h = c.compile() if ctx.pick("entry", entries) == "compiled" and (exp is not None or mark in ("", "Maybe", "FromContext", "MaybeContext", "All") and w in ("resolve", "aresolve")) else c
    if use == "ctx":
        h = h.enter_scope(Scope.REQUEST, context=ctxmap)

    def get():
        if w == "resolve":
            return outcome(lambda: h.resolve(ask))
        if w == "aresolve":
            return aoutcome(lambda: h.aresolve(ask))
        if w == "injected":
            return outcome(lambda: fn(diwire_resolver=h))
        if w == "injected-async":
            return aoutcome(lambda: fn(diwire_resolver=h))
        r = outcome(lambda: h.resolve(U))
        return ("ok", r[1].x) if r[0] == "ok" else r

    for _ in range(2):
        r = get()
        if mark in ("Provider", "AsyncProvider"):
            if r[0] == "ok":
                r = outcome(r[1]) if mark == "Provider" else aoutcome(r[1])
            if exp is None:
                from diwire.exceptions import DIWireError
                ctx.check(r[0] == "exc" and isinstance(r[1], DIWireError), lambda: f"{ask} is not registered, got {r!r}")
                continue
        if mark == "MaybeProvider":
            if exp is None:
                continue  # C22/C23
            ctx.check(r[0] == "ok" and callable(r[1]), lambda: f"{ask}: {r!r}")
            r = outcome(r[1])
        if mark == "All":
            members = [v for (b, k), (v, _k) in values.items() if b == qb]
            ctx.check(r[0] == "ok" and len(r[1]) == len(members) and all(any(m is v for v in r[1]) for m in members), lambda: f"{ask}: {r!r}")
            continue
        if mark in ("Maybe", "MaybeContext") and exp is None:
            ctx.check(r == ("ok", None), lambda: f"{ask} is not registered, got {r!r}")
            continue
        if exp is None:
            ctx.check(r[0] == "exc" and isinstance(r[1], DIWireDependencyNotRegisteredError), lambda: f"{ask} is not registered, got {r!r}")
        else:
            ctx.check(r[0] == "ok" and r[1] is exp, lambda: f"{ask} ({w}): expected {qb}/{qk}, got {r!r}")


def _unhashable(k):
    try:
        hash(k)
        return False
    except TypeError:
        return True


SP = ["exact", "pre", "post", "inner-meta", "outer-meta", "many", "deep", "oddeq", "list", "dict-first", "docs"]
FEW = ["exact", "pre", "outer-meta", "list"]
ALLM = ["", "Maybe", "Provider", "AsyncProvider", "All", "MaybeProvider"]
Q = dict(regs=1, bases=["A"], comps=[None, "x"], rspells=SP, qspells=SP, uses=["reg"], hows=["instance"], modes=["strict"], marks=[""], entries=["root"])

PROPERTY = Property(
    "C14",
    [
        Harness("spellings", normalise,
                "one registration and one request, each with or without a component, spelled in 11 ways (nesting, positions, unhashable and oddly comparing metadata); 7 consumers",
                quick={**Q}, thorough={**Q, "bases": ["A", "G[int]", "int"], "entries": ["root", "compiled"], "hows": ["instance", "factory"]},
                reach=("hit", "miss")),
        Harness("registering", normalise,
                "every way of registering a key (instance, factory, return annotation, component argument, decorator) in 11 spellings",
                quick={**Q, "hows": ["instance", "factory", "return", "component=", "decorated"], "qspells": ["exact", "many", "list"]},
                thorough={**Q, "hows": ["instance", "factory", "return", "component=", "decorated"], "bases": ["A", "G[int]"]},
                reach=("hit", "miss")),
        Harness("identity", normalise,
                "two registrations and a request over 4 bases and 4 component values",
                quick={**Q, "regs": 2, "bases": ["A", "B", "G[int]", "G[str]"], "comps": [None, "x", ("x", 1)], "rspells": ["exact", "many"], "qspells": ["deep"], "consumers": ["resolve", "param", "injected"]},
                thorough={**Q, "regs": 2, "bases": ["A", "B", "G[int]", "int", "list[int]", "opt"], "comps": [None, "x", 1, ("x", 1)], "rspells": ["exact", "many"], "qspells": ["deep", "list"]},
                reach=("hit", "miss")),
        Harness("markers", normalise,
                "6 markers around a key in 11 spellings, with or without further metadata outside the marker",
                quick={**Q, "marks": ALLM[1:], "rspells": ["exact", "many"], "qspells": SP},
                thorough={**Q, "marks": ALLM[1:], "rspells": FEW, "qspells": SP, "bases": ["A", "G[int]"], "modes": ["strict", "context"]},
                reach=("hit", "miss")),
        Harness("context", normalise,
                "context mappings (normalised keys) read through FromContext and Maybe[FromContext] in 11 spellings",
                quick={**Q, "uses": ["ctx"], "marks": ["FromContext", "MaybeContext"], "regs": 2, "rspells": ["exact"], "qspells": SP, "bases": ["A", "int"]},
                thorough={**Q, "uses": ["ctx"], "regs": 3, "marks": ["FromContext", "MaybeContext"], "rspells": ["exact"], "qspells": SP, "bases": ["A", "int"]},
                reach=("hit", "miss")),
    ],
)
