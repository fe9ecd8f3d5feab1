"""C21: decorators wrap the current binding, in the order they were added, exactly once."""
from __future__ import annotations

import functools
from types import new_class
from typing import Annotated, Any, Generic, TypeVar

from ..core import Harness, Property
from ..world import KINDS_ASYNC, KO, PK, POS, Obj, World, aoutcome, make_class, make_provider, outcome, param, register, sig, strict_container

T = TypeVar("T")


class Model:
    """What the history so far means: per key, the latest binding and the decorators in order."""

    def __init__(self):
        self.binding, self.rules = {}, {}

    def layers(self, k):
        """The nodes of the value of k, outermost first."""
        return [*reversed(self.rules.get(k, [])), self.binding[k][0]]


def chain(o):
    """The labels of a value, outermost first, following the 'inner' arguments."""
    r = []
    while isinstance(o, Obj):
        r.append(o.node)
        o = (o.args or {}).get("inner")
    return r


def deco_fn(w, label, key, extra=(), is_async=False, inner_kind=PK, inner_first=True, typed=True):
    inner = param("inner", key if typed else inspect_any(), kind=inner_kind)
    ps = [inner, *extra] if inner_first else [*extra, inner]
    return make_provider(w, label, "afn" if is_async else "fn", key, ps, suspend=True)


def inspect_any():
    return Any


def histories(ctx, steps, keys, ops, lifes, peek):
    from diwire import Component, Lifetime
    from diwire.exceptions import DIWireDependencyNotRegisteredError

    w = World(ctx)
    c = strict_container()
    X, Y = make_class("X"), make_class("Y")
    G = new_class("G", (Obj, Generic[T]))
    declared = {"X": X, "X@a": Annotated[X, Component("a")], "Y": Y, "G": G[T], "Glist": G[list[T]], "Gint": G[int]}
    asked = {"X": [X], "X@a": [Annotated[X, Component("a")]], "Y": [Y], "G": [G[str], G[int], G[list[int]]], "Glist": [G[list[str]]], "Gint": [G[int]]}
    m = Model()
    hist = []
    n = 0

    def served_by(name, key):
        if name == "G" and key == G[int] and "Gint" in m.binding:
            return "Gint"
        if name == "G" and key == G[list[int]] and "Glist" in m.binding:
            return "Glist"
        return name

    def verify():
        for name in keys:
            for key in asked[name]:
                src = served_by(name, key)
                if src == "Gint" and src not in m.binding:
                    src = "G"
                if src == "Glist" and src not in m.binding:
                    src = "G"
                what = f"after {hist}: {key}"
                r = outcome(lambda: c.resolve(key))
                if src not in m.binding:
                    ctx.check(r[0] == "exc" and isinstance(r[1], DIWireDependencyNotRegisteredError), lambda: f"{what} is not registered, got {r!r}")
                    continue
                ctx.check(r[0] == "ok", lambda: f"{what} gave {r[1]!r}")
                want = m.layers(src)
                got = chain(r[1])
                ctx.check(got == want, lambda: f"{what}: layers {got}, expected {want}")
                if len(want) > 2:
                    ctx.reach("stacked")
                r2 = c.resolve(key)
                same = m.binding[src][1] == "SCOPED"
                o, p = r[1], r2
                while isinstance(o, Obj):
                    ctx.check((o is p) == same, lambda: f"{what}: a {m.binding[src][1]} binding gave {'the same' if o is p else 'another'} {o!r} at the second resolve")
                    o, p = o.args.get("inner"), p.args.get("inner")

    for i in range(steps):
        name = ctx.pick(f"{i}.key", keys)
        op = ctx.pick(f"{i}.op", ops)
        n += 1
        label = f"{op}{n}"
        hist.append(f"{label}({name})")
        if op in ("fn", "gen", "cls", "instance"):
            life = ctx.pick(f"{i}.life", lifes) if op != "instance" else "SCOPED"
            key = declared[name]
            cls = X if name.startswith("X") else Y if name == "Y" else G
            if op == "cls":
                impl = make_class(f"Impl{n}", (cls[T],) if name == "G" else (cls,))
                if name == "G":
                    impl = new_class(f"Impl{n}", (G[T],))
                make_provider(w, label, "cls", impl)
                c.add(impl, provides=key, lifetime=getattr(Lifetime, life))
            elif op == "instance":
                if name.startswith("G") and name != "Gint":
                    ctx.assume(False)
                c.add_instance(w.new(label, {}, cls), provides=key)
            else:
                register(c, op, make_provider(w, label, op, cls), key, lifetime=getattr(Lifetime, life))
            m.binding[name] = (label, life)
            ctx.reach("rebound") if m.rules.get(name) else None
        elif op in ("deco", "compdeco"):
            key = declared[name]
            f = deco_fn(w, label, key)
            if op == "compdeco" and name == "X@a":
                # the component given by argument, the inner parameter by name
                f = deco_fn(w, label, X)
                c.decorate(provides=X, component="a", decorator=f, inner_parameter="inner")
            else:
                c.decorate(provides=key, decorator=f)
            m.rules.setdefault(name, []).append(label)
        elif op == "baddeco":
            from diwire.exceptions import DIWireInvalidRegistrationError

            r = outcome(lambda: c.decorate(provides=declared[name], decorator=make_provider(w, label, "fn", X, [param("other", int)])))
            ctx.check(r[0] == "exc" and isinstance(r[1], DIWireInvalidRegistrationError), lambda: f"after {hist}: a decorator without an inner parameter gave {r!r}")
        if peek and i < steps - 1 and ctx.flag(f"{i}.look"):
            hist.append("resolve")
            verify()
    verify()


FORMS = ["function", "async function", "class", "callable object", "partial", "inner last", "keyword-only inner", "explicit inner", "two of the type", "positional-only inner"]


def forms(ctx, forms, kinds, lifes, scopes, others, paths, counts):
    """One key with 1-2 decorators: form of the decorator, provider kind, lifetime, scope, other dependencies, path."""
    from diwire import All, AsyncProvider, Component, Injected, Lifetime, Maybe, Provider, ResolverContext, Scope

    w = World(ctx)
    rc = ResolverContext()
    c = strict_container(resolver_context=rc)
    X, Y, Z, K = make_class("X"), make_class("Y"), make_class("Z"), make_class("K")
    keyname = ctx.pick("key", ["X", "X@a"])
    key = X if keyname == "X" else Annotated[X, Component("a")]
    form = ctx.pick("form", forms)
    kind = ctx.pick("kind", kinds)
    life = ctx.pick("life", lifes)
    scope = ctx.pick("scope", scopes)
    other = ctx.pick("other", others)
    path = ctx.pick("path", paths)
    count = ctx.pick("count", counts)
    before = ctx.flag("decorated.first")
    is_async = kind in KINDS_ASYNC or form == "async function" or other == "async Y"
    if path in ("provider", "injected") and is_async:
        path = "direct"
    register(c, "afn" if other == "async Y" else "fn", make_provider(w, "Y", "afn" if other == "async Y" else "fn", Y), Y, lifetime=Lifetime.TRANSIENT)
    # the same class under another component must stay undecorated
    plain = Annotated[X, Component("a")] if keyname == "X" else X
    register(c, "fn", make_provider(w, "plain", "fn", X), plain, lifetime=Lifetime.TRANSIENT)

    ann = {"none": None, "Y": Y, "async Y": Y, "provider": Provider[Y], "maybe": Maybe[Z], "all": All[Y], "plain": plain, "default": Z}[other]
    extra = [] if ann is None else [param("extra", ann, **({"default": 5} if other == "default" else {}))]

    def deco(label):
        kw = {}
        if form == "class":
            k = make_class("Deco", (X,))
            make_provider(w, label, "cls", k, [param("inner", key), *extra])
            f = k
        elif form == "callable object":
            g = deco_fn(w, label, key, extra)

            class Callable_:
                def __call__(self, *a, **kw):
                    return g(*a, **kw)
            f = Callable_()
            Callable_.__call__.__signature__ = sig([param("self"), param("inner", key), *extra])
            Callable_.__call__.__annotations__ = {"inner": key, **({"extra": ann} if extra else {}), "return": X}
        elif form == "partial":
            g = deco_fn(w, label, key, [*extra, param("bound")])
            f = functools.partial(g, bound=3)
        elif form == "inner last":
            f = deco_fn(w, label, key, extra if other != "default" else [], inner_first=False)
        elif form == "keyword-only inner":
            f = deco_fn(w, label, key, extra if other != "default" else [], inner_kind=KO, inner_first=False)
        elif form == "explicit inner":
            f = deco_fn(w, label, key, extra, typed=False)
            kw["inner_parameter"] = "inner"
        elif form == "positional-only inner":
            f = deco_fn(w, label, key, extra, inner_kind=POS)
        else:
            f = deco_fn(w, label, key, extra, is_async=form == "async function")
        c.decorate(provides=key, decorator=f, **kw)

    sc = getattr(Scope, scope)
    lf = getattr(Lifetime, life)

    def base():
        register(c, kind, make_provider(w, "base", kind, X), key, lifetime=lf, scope=sc)
    if form == "two of the type":
        # two candidates: refused unless the parameter is named
        base()
        f = make_provider(w, "d", "fn", X, [param("inner", key), param("more", key)])
        r = outcome(lambda: c.decorate(provides=key, decorator=f))
        ctx.check(r[0] == "exc", lambda: f"an ambiguous decorator was accepted")
        r = outcome(lambda: c.resolve(key)) if scope == "APP" and not is_async else None
        ctx.check(r is None or (r[0] == "ok" and chain(r[1]) == ["base"]), lambda: f"after a refused decorator: {r!r}")
        return
    labels = [f"d{i}" for i in range(count)]
    if before:
        deco(labels[0])
        base()
        for x in labels[1:]:
            deco(x)
    else:
        base()
        for x in labels:
            deco(x)
    want = [*reversed(labels), "base"]
    what = f"{keyname} {kind} {life} at {scope}, {count} decorators ({form}, needing {other}){' before the binding' if before else ''}, {path}"
    if path == "consumer":
        register(c, "fn", make_provider(w, "K", "fn", K, [param("x", key), param("u", plain)]), K, lifetime=Lifetime.TRANSIENT, scope=sc)
    if path == "provider":
        register(c, "fn", make_provider(w, "K", "fn", K, [param("x", Provider[key]), param("u", plain)]), K, lifetime=Lifetime.TRANSIENT, scope=sc)

    def get(h):
        if path == "direct":
            return aoutcome(lambda: h.aresolve(key)) if is_async else outcome(lambda: h.resolve(key))
        if path == "all":
            r = aoutcome(lambda: h.aresolve(All[X])) if is_async else outcome(lambda: h.resolve(All[X]))
            if r[0] == "ok":
                vs = [v for v in r[1] if "base" in chain(v)]
                ctx.check(len(r[1]) == 2 and len(vs) == 1 and [chain(v) for v in r[1] if v not in vs] == [["plain"]], lambda: f"{what}: All holds {[chain(v) for v in r[1]]}")
                return ("ok", vs[0])
            return r
        if path == "injected":
            def f(x, u):
                return x, u
            f.__annotations__ = {"x": Injected[key], "u": Injected[plain]}
            r = outcome(lambda: c.inject(f)(diwire_resolver=h)) if hasattr(c, "inject") else outcome(lambda: rc.inject(f)(diwire_resolver=h))
            if r[0] == "ok":
                ctx.check(chain(r[1][1]) == ["plain"], lambda: f"{what}: the other component is {chain(r[1][1])}")
                return ("ok", r[1][0])
            return r
        r = aoutcome(lambda: h.aresolve(K)) if is_async else outcome(lambda: h.resolve(K))
        if r[0] == "ok":
            ctx.check(chain(r[1].args["u"]) == ["plain"], lambda: f"{what}: the other component is {chain(r[1].args['u'])}")
            x = r[1].args["x"]
            return outcome(x) if path == "provider" else ("ok", x)
        return r

    def valid(r, n):
        ctx.check(r[0] == "ok", lambda: f"{what}: {r[1]!r}")
        ctx.check(chain(r[1]) == want, lambda: f"{what}: layers {chain(r[1])}, expected {want}")
        o = r[1]
        for label in labels[::-1]:
            e = o.args.get("extra")
            ok = {"none": e is None, "Y": getattr(e, "node", 0) == "Y", "async Y": getattr(e, "node", 0) == "Y", "provider": callable(e), "maybe": e is None,
                  "all": type(e) is tuple and [v.node for v in e] == ["Y"], "plain": getattr(e, "node", 0) == "plain", "default": True}[other]
            ctx.check(ok, lambda: f"{what}: {label} received {e!r}")
            o = o.args["inner"]
        return r[1]

    ctx.reach(path)
    h = c
    if scope != "APP":
        ctx.check(get(c)[0] == "exc", lambda: f"{what}: resolved outside its scope")
        h = c.enter_scope(sc)
    a, b = valid(get(h), 1), valid(get(h), 2)
    o, p = a, b
    while o is not None:
        ctx.check((o is p) == (life == "SCOPED"), lambda: f"{what}: the second resolve gave {'the same' if o is p else 'another'} {o!r}")
        o, p = o.args.get("inner"), p.args.get("inner")
    if scope != "APP":
        h2 = c.enter_scope(sc)
        ctx.check(valid(get(h2), 3) is not a, lambda: f"{what}: shared between scopes")
    ctx.check(chain((aoutcome(lambda: c.aresolve(plain)) if is_async else outcome(lambda: c.resolve(plain)))[1]) == ["plain"], lambda: f"{what}: the other component was decorated")
    fins = [e for e in w.log if e[0] == "fin"]
    ctx.check(not fins, lambda: f"{what}: cleaned up early: {fins}")
    if scope != "APP":
        import contextlib

        r = aoutcome(lambda: h.aclose()) if is_async else outcome(lambda: h.close())
        ctx.check(r[0] == "ok", lambda: f"{what}: close gave {r!r}")
        n = len([o for o in w.made if o.node == "base"]) if life == "TRANSIENT" else 2
        fins = [e for e in w.log if e[0] == "fin"]
        if kind in ("gen", "cm", "agen", "acm"):
            here = 1 if life == "SCOPED" else 2
            ctx.check(len(fins) == here, lambda: f"{what}: {len(fins)} of {here} base values cleaned up with their scope")


def opens(ctx, regs, decos, lifes, lists):
    """Open generic keys: decorators of G[T], G[list[T]] and closed G[int], each reaching the type arguments."""
    from diwire import Lifetime

    w = World(ctx)
    c = strict_container()
    G = new_class("G", (Obj, Generic[T]))
    KEY = {"G[T]": G[T], "G[list[T]]": G[list[T]], "G[int]": G[int]}
    binding, rules = {}, {}
    life = getattr(Lifetime, ctx.pick("life", lifes))
    ops = [ctx.pick(f"op{i}", ["-"] + [("add", k) for k in regs] + [("deco", k) for k in decos]) for i in range(lists)]
    for i, op in enumerate(ops):
        if op == "-":
            continue
        what, k = op
        label = f"{what}{i}"
        ps = [param("t", type[T])] if k != "G[int]" else []
        if what == "add":
            f = make_provider(w, label, "fn", G, ps)
            c.add_factory(f, provides=KEY[k], lifetime=life)
            binding[k] = label
        else:
            f = make_provider(w, label, "fn", G, [param("inner", KEY[k]), *ps])
            c.decorate(provides=KEY[k], decorator=f)
            rules.setdefault(k, []).append(label)
    for key, cands in ((G[int], ["G[int]", "G[T]"]), (G[str], ["G[T]"]), (G[list[int]], ["G[list[T]]", "G[T]"]), (G[list[list[str]]], ["G[list[T]]", "G[T]"])):
        src = next((k for k in cands if k in binding), None)
        r = outcome(lambda: c.resolve(key))
        what = f"{ops}: {key}"
        if src is None:
            ctx.check(r[0] == "exc", lambda: f"{what} is not registered, got {r!r}")
            continue
        want = [*reversed(rules.get(src, [])), binding[src]]
        ctx.check(r[0] == "ok", lambda: f"{what} gave {r[1]!r}")
        ctx.check(chain(r[1]) == want, lambda: f"{what}: layers {chain(r[1])}, expected {want}")
        arg = {G[int]: int, G[str]: str, G[list[int]]: list[int] if src == "G[T]" else int, G[list[list[str]]]: list[list[str]] if src == "G[T]" else list[str]}[key]
        o = r[1]
        while isinstance(o, Obj):
            if src != "G[int]":
                ctx.check(o.args["t"] == arg, lambda: f"{what}: {o!r} received the type argument {o.args['t']!r}, expected {arg}")
            o = o.args.get("inner")
        if len(want) > 1:
            ctx.reach("decorated")
        ctx.check((c.resolve(key) is r[1]) == (life is Lifetime.SCOPED), lambda: f"{what}: lifetime")


PROPERTY = Property(
    "C21",
    [
        Harness("histories", histories, "every history of 3 operations (thorough 4) registering, decorating, refusing a decorator on X and component X@a, looked at in between",
                quick=dict(steps=3, keys=["X", "X@a"], ops=["fn", "deco", "compdeco"], lifes=["SCOPED", "TRANSIENT"], peek=True),
                thorough=dict(steps=4, keys=["X", "X@a"], ops=["fn", "instance", "deco", "compdeco"], lifes=["SCOPED", "TRANSIENT"], peek=True),
                reach=("stacked", "rebound")),
        Harness("one key", histories, "every history of 5 operations on one key, all registration methods",
                quick=dict(steps=5, keys=["X"], ops=["fn", "cls", "instance", "deco"], lifes=["TRANSIENT"], peek=False),
                thorough=dict(steps=6, keys=["X"], ops=["fn", "gen", "cls", "instance", "deco", "baddeco"], lifes=["SCOPED"], peek=False),
                reach=("stacked", "rebound")),
        Harness("forms", forms, "9 forms of decorator, 7 provider kinds, 2 lifetimes, 2 scopes, 8 other dependencies, 5 paths, 1-2 decorators, before or after the binding",
                quick=dict(forms=FORMS, kinds=["cls", "gen", "afn"], lifes=["SCOPED", "TRANSIENT"], scopes=["APP", "REQUEST"], others=["none", "Y", "plain"], paths=["direct", "consumer", "all"], counts=[2]),
                thorough=dict(forms=FORMS, kinds=["cls", "fn", "gen", "cm", "afn", "agen", "acm"], lifes=["SCOPED", "TRANSIENT"], scopes=["APP", "REQUEST"],
                              others=["none", "Y", "async Y", "provider", "maybe", "all", "plain", "default"], paths=["direct", "consumer", "provider", "injected", "all"], counts=[1, 2]),
                reach=("direct", "consumer", "all")),
        Harness("open", opens, "5 operations (thorough 6) out of registering and decorating G[T], G[list[T]] and G[int]; 4 closed keys with their type arguments",
                quick=dict(regs=["G[T]", "G[list[T]]", "G[int]"], decos=["G[T]", "G[list[T]]", "G[int]"], lifes=["SCOPED"], lists=4),
                thorough=dict(regs=["G[T]", "G[list[T]]", "G[int]"], decos=["G[T]", "G[list[T]]", "G[int]"], lifes=["SCOPED", "TRANSIENT"], lists=5),
                reach=("decorated",)),
    ],
    outside=["decorators registered from several threads", "more than 6 operations"],
)
