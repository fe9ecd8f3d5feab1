"""C12: registrations take effect for the next resolution; failed ones change nothing."""
from __future__ import annotations

from types import new_class
from typing import Annotated, Any, Generator, Generic, TypeVar

from ..core import Harness, Property
from ..world import aoutcome, make_class, outcome

OK = ("factory", "instance", "cls", "gen")


class Val:
    pass


def history(ctx, ops, nops, keys, kinds, fails, modes, policies, lifes, sweeps, first=None):
    from diwire import (
        Component, Container, DependencyRegistrationPolicy, Injected, Lifetime, MissingPolicy, ResolverContext, Scope,
    )
    from diwire.exceptions import DIWireDependencyNotRegisteredError, DIWireError

    mode = ctx.pick("mode", modes)
    policy = ctx.pick("policy", policies)
    life = getattr(Lifetime, ctx.pick("life", lifes))
    rc = ResolverContext()
    c = Container(
        missing_policy=MissingPolicy.ERROR, resolver_context=rc, use_resolver_context=mode == "context",
        dependency_registration_policy=getattr(DependencyRegistrationPolicy, policy),
    )
    T = TypeVar("T")
    A = make_class("A")
    B = make_class("B")
    New = type("New", (), {})  # concrete class an autoregistering registration would add
    G = new_class("G", (Generic[T],))
    KEYS = {"A": A, "Ax": Annotated[A, Component("x")], "B": B, "G": G[int], "Gs": G[str]}

    # contracts: these callables must stay satisfiable at REQUEST
    for k in keys:
        def f(x: Any) -> None: ...
        f.__annotations__ = {"x": Injected[KEYS[k]]}
        rc.inject(scope=Scope.REQUEST)(f)

    base = {}     # key -> version
    decs = {}     # key -> [tags]
    counter = [0]

    def obj(cls, ver, **kw):
        o = object.__new__(cls)
        o.ver = ver
        o.__dict__.update(kw)
        return o

    def provides(k):
        if k == "Ax":
            return dict(provides=A, component="x")
        if k == "G":
            return dict(provides=G[T])
        return dict(provides=KEYS[k])

    def make(k, ver, dep=None):
        cls = {"A": A, "Ax": A, "B": B, "G": G, "Gs": G}[k]
        if k == "B":
            def p(a):
                return obj(B, ver, a=a)
            p.__annotations__ = {"a": A, "return": B}
        elif dep is not None:
            def p(d):
                return obj(cls, ver)
            p.__annotations__ = {"d": dep, "return": KEYS[k]}
        else:
            def p():
                return obj(cls, ver)
            p.__annotations__ = {"return": KEYS[k]}
        return p

    def reg(k, kind, ver, scope=Scope.APP, dep=None, **kw):
        p = make(k, ver, dep)
        args = dict(lifetime=life, scope=scope, **provides(k), **kw)
        if kind == "instance" and k not in ("B", "G"):
            c.add_instance(obj({"A": A, "Ax": A, "Gs": G}[k], ver), **provides(k))
        elif kind == "gen" and k != "B":
            def g():
                yield p()
            g.__annotations__ = {"return": Generator[KEYS[k], None, None]}
            c.add_generator(g, **args)
        elif kind == "cls" and k == "A":
            def __init__(self):
                self.ver = ver
            c.add(type(f"A{ver}", (A,), {"__init__": __init__}), **args)
        else:
            c.add_factory(p, **args)

    def decorate(k, tag, dep=None):
        tk = {"A": A, "Ax": KEYS["Ax"], "B": B, "G": G[T], "Gs": G[str]}[k]
        cls = {"A": A, "Ax": A, "B": B, "G": G, "Gs": G}[k]
        if dep is None:
            def d(inner):
                return obj(cls, None, inner=inner, tag=tag)
            d.__annotations__ = {"inner": tk, "return": tk}
        else:
            def d(inner, x):
                return obj(cls, None, inner=inner, tag=tag)
            d.__annotations__ = {"inner": tk, "x": dep, "return": tk}
        c.decorate(decorator=d, inner_parameter="inner", **({"provides": A, "component": "x"} if k == "Ax" else {"provides": tk}))

    Deep = make_class("Deep")

    def fail(variant, k, i):
        p = make(k, "BAD")
        kw = provides(k)
        if variant == "lifetime":
            c.add_factory(p, lifetime="nope", **kw)
        elif variant == "noncallable":
            c.add_factory(42, **kw)
        elif variant == "contract":
            reg(k, ctx.pick(f"op{i}.failkind", ["factory", "gen", "cls"]), "BAD", scope=Scope.ACTION)
        elif variant == "contract-auto":
            # an autoregistered dependency must disappear with the failed registration
            k = k if k != "B" else "A"
            c.add_factory(make(k, "BAD", dep=New), lifetime=life, scope=Scope.ACTION,
                          dependency_registration_policy=DependencyRegistrationPolicy.REGISTER_RECURSIVE, **provides(k))
        elif variant == "infer":
            def q(x):
                return obj(A, "BAD")
            q.__annotations__ = {"return": KEYS[k]}
            c.add_factory(q, lifetime=life, **kw)
        elif variant == "component":
            c.add_factory(p, lifetime=life, provides=kw["provides"], component=[])
        elif variant == "scope":
            c.add_factory(p, lifetime=life, scope="nope", **kw)
        elif variant == "dependencies":
            c.add_factory(p, lifetime=life, dependencies={"x": 1}, **kw)
        elif variant == "decorate-inner":
            def d():
                return None
            d.__annotations__ = {"return": A}
            c.decorate(decorator=d, **({"provides": A, "component": "x"} if k == "Ax" else {"provides": kw["provides"]}))
        elif variant == "decorate-gen":
            def d(inner):
                yield None
            d.__annotations__ = {"inner": A}
            c.decorate(decorator=d, provides=A)
        elif variant == "decorate-contract":
            decorate(k, "BAD", dep=Deep)
        else:
            raise AssertionError(variant)

    if "decorate-contract" in fails:
        def deep():
            return obj(Deep, 0)
        deep.__annotations__ = {"return": Deep}
        c.add_factory(deep, provides=Deep, scope=Scope.ACTION, lifetime=Lifetime.TRANSIENT)

    def check(k, r, how):
        if k == "G" and "Gx" in base:
            pass
        src = k
        ver = base.get(src)
        ds = decs.get(src, [])
        if k == "Gs" and ver is None:  # the open registration serves it
            ver, ds = base.get("G"), decs.get("G", [])
        if k == "B" and ver is not None and base.get("A") is None:
            ctx.check(r[0] == "exc" and isinstance(r[1], DIWireDependencyNotRegisteredError), lambda: f"{how}: B without A gave {r!r}")
            return
        if ver is None:
            ctx.check(r[0] == "exc" and isinstance(r[1], DIWireDependencyNotRegisteredError), lambda: f"{how}: {k} is not registered, got {r!r}")
            return
        ctx.check(r[0] == "ok", lambda: f"{how}: resolving {k} raised {r[1]!r}")
        v = r[1]
        for tag in reversed(ds):
            ctx.check(getattr(v, "tag", None) == tag, lambda: f"{how}: {k}: expected decorator {tag}, got {getattr(v, 'tag', None)!r}")
            v = v.inner
        ctx.check(getattr(v, "ver", None) == ver, lambda: f"{how}: {k}: expected registration {ver}, got {getattr(v, 'ver', None)!r}")
        if k == "B":
            check("A", ("ok", v.a), how + " (B.a)")

    saved = {}

    def grab():
        saved.clear()
        saved["resolve"] = c.resolve
        saved["aresolve"] = c.aresolve
        saved["enter_scope"] = c.enter_scope

    def b_broken():
        # B registered without A: every compilation reports the missing dependency (C20/C24 decide it)
        return "B" in base and "A" not in base

    def sweep(how):
        if b_broken():
            r = outcome(lambda: c.resolve(B))
            ctx.check(r[0] == "exc" and isinstance(r[1], DIWireError), lambda: f"B without A gave {r!r}")
            return
        if "A" in keys and policy != "IGNORE":
            pass
        ks = [k for k in KEYS if k in keys or (k == "Gs" and "G" in keys)]
        for k in ks:
            key = KEYS[k]
            check(k, outcome(lambda: c.resolve(key)), f"{how} resolve")
            check(k, outcome(lambda: saved["resolve"](key)), f"{how} saved resolve")
            check(k, aoutcome(lambda: saved["aresolve"](key)), f"{how} saved aresolve")
            check(k, outcome(lambda: saved["enter_scope"](Scope.REQUEST).resolve(key)), f"{how} saved enter_scope")
            check(k, outcome(lambda: c.compile().resolve(key)), f"{how} compile().resolve")
            check(k, outcome(lambda: rc.resolve(key)), f"{how} resolver_context")
        if any(x.startswith("contract-auto") for x in fails):
            r = outcome(lambda: c.resolve(New))
            ctx.check(r[0] == "exc" and isinstance(r[1], DIWireDependencyNotRegisteredError), lambda: f"{how}: a failed registration left its dependency registered")

    grab()
    for i in range(nops):
        op = ctx.pick(f"op{i}", first if first and i == 0 else ops)
        k = ctx.pick(f"op{i}.key", keys)
        counter[0] += 1
        if op == "reg":
            kind = ctx.pick(f"op{i}.kind", kinds)
            r = outcome(lambda: reg(k, kind, counter[0]))
            ctx.check(r[0] == "ok", lambda: f"registering {k} ({kind}) raised {r[1]!r}")
            base[k] = counter[0]
            grab()
        elif op == "dec":
            r = outcome(lambda: decorate(k, counter[0]))
            ctx.check(r[0] == "ok", lambda: f"decorating {k} raised {r[1]!r}")
            decs.setdefault(k, []).append(counter[0])
            grab()
        elif op == "fail":
            variant = ctx.pick(f"op{i}.variant", fails)
            # a pending decoration that nothing uses cannot violate a contract
            if variant == "decorate-contract" and (k not in base):
                return
            r = outcome(lambda: fail(variant, k, i))
            ctx.reach("failed")
            ctx.check(r[0] == "exc" and isinstance(r[1], (DIWireError, TypeError)), lambda: f"{variant} on {k} did not raise: {r!r}")
        elif op == "compile":
            r = outcome(lambda: c.compile())
            if not b_broken():
                ctx.check(r[0] == "ok", lambda: f"compile raised {r[1]!r}")
        elif op == "resolve":
            outcome(lambda: c.resolve(KEYS[k]))
        if sweeps and not (first and i == 0) and ctx.flag(f"op{i}.sweep"):
            sweep(f"after op {i}")
    ctx.reach("swept")
    sweep("at the end")


PROPERTY = Property(
    "C12",
    [
        Harness("history", history,
                "3 operations (register, decorate, compile, resolve) on a key, its component and a consumer; 4 provider kinds, strict and resolver-context containers, methods captured after the last registration",
                quick=dict(ops=["reg", "dec", "compile", "resolve"], nops=3, keys=["A", "Ax", "B"], kinds=["factory", "instance"], fails=[],
                           modes=["strict", "context"], policies=["IGNORE"], lifes=["TRANSIENT"], sweeps=False),
                thorough=dict(nops=4, kinds=list(OK)),
                reach=("swept",)),
        Harness("intermixed", history,
                "4 operations on one key with a full check after any subset of them",
                quick=dict(ops=["reg", "dec", "resolve"], nops=4, keys=["A"], kinds=["factory", "gen"], fails=[],
                           modes=["strict", "context"], policies=["IGNORE"], lifes=["SCOPED"], sweeps=True),
                thorough=dict(nops=5, kinds=list(OK)),
                reach=("swept",)),
        Harness("failing", history,
                "3 operations, one or more failing in one of 11 ways (validation, inference, scope contract with and without autoregistered dependencies, decorators)",
                quick=dict(ops=["reg", "dec", "fail"], nops=3, keys=["A", "Ax"], kinds=["factory"],
                           fails=["lifetime", "noncallable", "contract", "contract-auto", "infer", "component", "scope", "dependencies", "decorate-inner", "decorate-gen", "decorate-contract"], first=["reg"],
                           modes=["strict", "context"], policies=["IGNORE"], lifes=["TRANSIENT"], sweeps=True),
                thorough=dict(keys=["A", "Ax", "B"]),
                reach=("failed", "swept")),
        Harness("open", history,
                "3 operations on an open generic and a closed registration of it, including failing ones",
                quick=dict(ops=["reg", "dec", "fail", "resolve"], nops=3, keys=["G", "Gs"], kinds=["factory", "gen"],
                           fails=["lifetime", "contract", "decorate-contract"], first=["reg"], modes=["strict", "context"], policies=["IGNORE"], lifes=["TRANSIENT"], sweeps=True),
                thorough=dict(nops=4),
                reach=("failed", "swept")),
    ],
)
