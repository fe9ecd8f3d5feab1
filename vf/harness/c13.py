"""C13: components are independent keys; All collects them in order."""
from __future__ import annotations

from types import new_class
from typing import Annotated, Any, Generator, Generic, TypeVar

from ..core import Harness, Property
from ..world import KO, PK, VP, aoutcome, make_class, outcome, param, sig


def components(ctx, nops, keys, lifes, scopes, kinds, spells, mids, entries, uses, decos, modes):
    from diwire import All, Component, Container, Injected, Lifetime, Maybe, MissingPolicy, Provider, ResolverContext, Scope
    from diwire import DependencyRegistrationPolicy
    from diwire.exceptions import (
        DIWireAsyncDependencyInSyncContextError, DIWireDependencyNotRegisteredError, DIWireScopeMismatchError,
    )

    rc = ResolverContext()
    c = Container(missing_policy=MissingPolicy.ERROR, resolver_context=rc, use_resolver_context=ctx.pick("mode", modes) == "context",
                  dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)
    A = make_class("A")
    Sub = make_class("Sub", (A,))  # a registered subclass must never be collected or substituted
    O = make_class("O")
    T = TypeVar("T")
    G = new_class("G", (Generic[T],))
    base = {"A": A, "Ax": A, "Ay": A, "At": A, "Sub": Sub, "O": O, "Ox": O, "G": G[int], "Gx": G[int], "Gs": G[str]}
    comp = {"Ax": "x", "Ay": "y", "At": ("x", 1), "Ox": "x", "Gx": "x"}

    def key(k):
        return Annotated[base[k], Component(comp[k])] if k in comp else base[k]

    class V:
        def __init__(self, k, ver):
            self.k, self.ver = k, ver

    order = []  # (key, ver) by latest registration
    info = {}
    ver = 0

    def register(k, i):
        nonlocal ver
        ver += 1
        v = ver
        kind = ctx.pick(f"op{i}.kind", kinds)
        life = getattr(Lifetime, ctx.pick(f"op{i}.life", lifes))
        scope = getattr(Scope, ctx.pick(f"op{i}.scope", scopes))
        spell = ctx.pick(f"op{i}.spell", spells)
        where = dict(provides=key(k)) if spell == "annotated" or k not in comp else dict(provides=base[k], component=comp[k])
        if spell == "meta" and k in comp:
            where = dict(provides=Annotated[base[k], "m", Component(comp[k]), "n"])
        if kind == "instance":
            o = V(k, v)
            c.add_instance(o, **where)
            info[k] = dict(ver=v, life=Lifetime.SCOPED, scope=Scope.APP, kind=kind, runs=[])
        else:
            runs = []
            info[k] = dict(ver=v, life=life, scope=scope, kind=kind, runs=runs)

            def p():
                o = V(k, v)
                runs.append(o)
                return o
            if kind == "afn":
                async def p():
                    o = V(k, v)
                    runs.append(o)
                    return o
            p.__annotations__ = {"return": Any}
            if kind == "gen":
                def p():
                    o = V(k, v)
                    runs.append(o)
                    yield o
                p.__annotations__ = {"return": Generator[Any, None, None]}
                c.add_generator(p, lifetime=life, scope=scope, **where)
            else:
                c.add_factory(p, lifetime=life, scope=scope, **where)
        order[:] = [x for x in order if x != k] + [k]

    decorated = {}

    def decorate(k):
        def d(inner):
            o = V(k, info[k]["ver"] if k in info else None)
            o.inner = inner
            return o
        d.__annotations__ = {"inner": key(k), "return": Any}
        c.decorate(provides=base[k], component=comp.get(k), decorator=d, inner_parameter="inner")
        decorated[k] = True

    for i in range(nops):
        op = ctx.pick(f"op{i}", ["none", *keys])
        if op != "none":
            register(op, i)
        if ctx.pick(f"op{i}.mid", mids):
            outcome(lambda: c.resolve(All[A]))
    for k in keys:
        if k in info and ctx.pick(f"deco.{k}", decos):
            decorate(k)

    famname = ctx.pick("family", sorted({"A" if k.startswith("A") else k[0] if k[0] in "GO" else "A" for k in keys}))
    fam = {"A": A, "O": O, "G": G[int]}[famname]
    use = ctx.pick("use", uses)
    entry = ctx.pick("entry", entries)
    member = [k for k in order if base[k] is fam or base[k] == fam]

    Use = make_class("Use")
    AllAnn = {"all": All[fam], "meta": Annotated[All[fam], "m"], "inner": All[Annotated[fam, "m"]]}[ctx.pick("ann", ["all", "meta", "inner"]) if use != "varargs" else "all"]

    if use in ("param", "kwonly", "varargs", "consumer-life"):
        kind = {"param": PK, "kwonly": KO, "varargs": VP, "consumer-life": PK}[use]

        async_needed = any(info[k]["kind"] == "afn" for k in member)

        if kind is VP:
            def use_p(*xs):
                o = object.__new__(Use)
                o.xs = xs
                return o
        elif kind is KO:
            def use_p(*, xs):
                o = object.__new__(Use)
                o.xs = xs
                return o
        else:
            def use_p(xs):
                o = object.__new__(Use)
                o.xs = xs
                return o
        use_p.__annotations__ = {"xs": AllAnn, "return": Use}
        c.add_factory(use_p, provides=Use, lifetime=Lifetime.TRANSIENT, scope=Scope.APP)

    @rc.inject(auto_open_scope=False)
    def injected(xs):
        return xs
    if use == "injected":
        def injected_(xs):
            return xs
        injected_.__annotations__ = {"xs": Injected[AllAnn]}
        injected = rc.inject(auto_open_scope=False)(injected_)

    root = c.compile() if entry == "compiled" else c
    handles = [("root", root, 1)]
    if entry == "nested":
        handles.append(("req", root.enter_scope(Scope.REQUEST), 3))
        handles.append(("req2", root.enter_scope(Scope.REQUEST), 3))

    def expect_error(r, level, how):
        """check the error outcome for a collected tuple; True if it had to fail"""
        if any(info[k]["scope"].level > level for k in member):
            ctx.check(r[0] == "exc" and isinstance(r[1], (DIWireScopeMismatchError, DIWireAsyncDependencyInSyncContextError)),
                      lambda: f"{how}: a member is owned by a deeper scope, got {r!r}")
            ctx.reach("mismatch")
            return True
        return False

    cache = {}

    def check_value(k, v, hname, level, how):
        i = info[k]
        if decorated.get(k):
            ctx.check(getattr(v, "inner", None) is not None, lambda: f"{how}: {k} is not decorated")
        ctx.check(isinstance(v, V) and v.k == k and v.ver == i["ver"], lambda: f"{how}: expected {k}#{i['ver']}, got {getattr(v, 'k', v)}#{getattr(v, 'ver', None)}")
        inner = getattr(v, "inner", v)
        ctx.check(decorated.get(k) or inner is v, lambda: f"{how}: {k} was wrapped by a decorator of another key")
        if i["kind"] != "instance":
            ctx.check(any(inner is o for o in i["runs"]), lambda: f"{how}: {k} value was not produced by its provider")
        if i["life"] is Lifetime.SCOPED:
            owner = (k, "root" if i["scope"].level == 1 else hname)
            if owner in cache:
                ctx.check(cache[owner] is v, lambda: f"{how}: {k} is scoped but was built twice")
            cache[owner] = v
        else:
            ctx.check(all(v is not o for o in cache.values()) and id(v) not in seen, lambda: f"{how}: transient {k} reused")
            seen[id(v)] = v

    seen = {}
    for hname, h, level in handles * 2:
        # each component key on its own
        for k in keys:
            r = aoutcome(lambda: h.aresolve(key(k)))
            if k not in info:
                ctx.check(r[0] == "exc" and isinstance(r[1], DIWireDependencyNotRegisteredError), lambda: f"{k} is not registered, got {r!r}")
            elif info[k]["scope"].level > level:
                ctx.check(r[0] == "exc" and isinstance(r[1], DIWireScopeMismatchError), lambda: f"{k} at {hname}: {r!r}")
            else:
                ctx.check(r[0] == "ok", lambda: f"{k} at {hname}: {r!r}")
                check_value(k, r[1], hname, level, f"{k} at {hname}")
        for api in ("resolve", "aresolve"):
            how = f"{use} {api} at {hname}"
            if use == "direct":
                r = outcome(lambda: h.resolve(AllAnn)) if api == "resolve" else aoutcome(lambda: h.aresolve(AllAnn))
            elif use == "injected":
                if api == "aresolve":
                    continue
                with h if hname != "root" else _null():
                    r = outcome(lambda: injected(diwire_resolver=h))
                if hname != "root":  # closed; do not reuse
                    pass
            else:
                r = outcome(lambda: h.resolve(Use)) if api == "resolve" else aoutcome(lambda: h.aresolve(Use))
                r = ("ok", r[1].xs) if r[0] == "ok" else r
            if expect_error(r, level, how):
                continue
            if api == "resolve" and any(info[k]["kind"] == "afn" for k in member):
                todo = [k for k in member if info[k]["kind"] == "afn"]
                # cached async values are served synchronously; an unbuilt one is refused (C06)
                if r[0] == "exc":
                    ctx.check(isinstance(r[1], DIWireAsyncDependencyInSyncContextError), lambda: f"{how}: {r!r}")
                    continue
            ctx.check(r[0] == "ok", lambda: f"{how}: {r!r}")
            xs = r[1]
            ctx.check(type(xs) is tuple, lambda: f"{how}: not a tuple: {xs!r}")
            ctx.check(len(xs) == len(member), lambda: f"{how}: expected {member}, got {[getattr(x, 'k', x) for x in xs]}")
            got = list(xs)
            exp = list(member)
            if decorated:  # the slot of a decorated key is not documented
                exp.sort()
                ctx.check(all(isinstance(x, V) for x in got), lambda: f"{how}: {got!r}")
                got.sort(key=lambda x: x.k)
            for k, v in zip(exp, got):
                check_value(k, v, hname, level, how)
            ctx.reach("collected" if xs else "empty")


class _null:
    def __enter__(self):
        return None

    def __exit__(self, *a):
        return False


Q = dict(nops=3, keys=["A", "Ax", "Ay"], lifes=["TRANSIENT"], scopes=["APP"], kinds=["fn"], spells=["component"], mids=[False],
         entries=["root"], uses=["direct"], decos=[False], modes=["strict"])

PROPERTY = Property(
    "C13",
    [
        Harness("order", components,
                "up to 4 registrations (with overrides) of a plain key, 3 components, a subclass and an unrelated key, a compilation possible after each; All spelled 3 ways",
                quick={**Q, "nops": 4, "keys": ["A", "Ax", "Ay", "Sub"], "mids": [False], "spells": ["component", "meta"]},
                thorough={**Q, "nops": 5, "keys": ["A", "Ax", "Ay", "At", "Sub", "Ox"], "mids": [False, True], "spells": ["component"]},
                reach=("collected", "empty")),
        Harness("overrides", components,
                "3 registrations of a key and 2 components with a compilation possible between any two",
                quick={**Q, "nops": 3, "keys": ["A", "Ax", "Ay"], "mids": [False, True], "kinds": ["fn", "instance"], "entries": ["root", "compiled"]},
                thorough={**Q, "nops": 4, "keys": ["A", "Ax", "Ay"], "mids": [False, True], "kinds": ["fn", "instance"]},
                reach=("collected", "empty")),
        Harness("lifetimes", components,
                "2 registrations, each any of {factory, generator, async factory, instance} x {TRANSIENT, SCOPED} x {APP, REQUEST}; two sibling scope instances",
                quick={**Q, "nops": 2, "keys": ["A", "Ax"], "lifes": ["TRANSIENT", "SCOPED"], "scopes": ["APP", "REQUEST"], "kinds": ["fn", "gen", "afn", "instance"],
                       "entries": ["nested"], "uses": ["direct", "param"]},
                thorough={**Q, "nops": 3, "keys": ["A", "Ax", "Ay"], "lifes": ["TRANSIENT", "SCOPED"], "scopes": ["APP", "REQUEST"], "kinds": ["fn", "gen", "afn"],
                          "entries": ["nested"], "uses": ["direct", "param"]},
                reach=("collected", "empty", "mismatch")),
        Harness("uses", components,
                "All consumed directly, as a positional, keyword-only or variadic provider parameter, and by an injected callable; classes and closed generics",
                quick={**Q, "nops": 3, "keys": ["A", "Ax", "G", "Gx", "Gs"], "uses": ["direct", "param", "kwonly", "varargs", "injected"],
                       "modes": ["strict", "context"]},
                thorough={**Q, "nops": 4, "keys": ["A", "Ax", "O", "Ox", "G", "Gx", "Gs"], "uses": ["direct", "param", "kwonly", "varargs", "injected"]},
                reach=("collected", "empty")),
        Harness("decorated", components,
                "3 registrations, any of the keys decorated: the decorator applies to that key only and its inner bindings are never collected",
                quick={**Q, "nops": 3, "keys": ["A", "Ax", "Ay"], "decos": [False, True], "uses": ["direct", "param"], "lifes": ["SCOPED"]},
                thorough={**Q, "nops": 4, "keys": ["A", "Ax", "Ay"], "decos": [False, True], "uses": ["direct", "param"], "lifes": ["SCOPED", "TRANSIENT"]},
                reach=("collected", "empty")),
    ],
)
