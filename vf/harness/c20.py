"""C20: circular dependencies are always detected, and only real ones."""
from __future__ import annotations

import inspect
from types import new_class
from typing import Annotated, Any, Generic, TypeVar

from ..core import Harness, Property
from ..world import KINDS_ASYNC, Obj, World, aoutcome, make_class, make_provider, outcome, param, register, strict_container

T = TypeVar("T")


def mk(**args):
    o = Obj()
    o.node, o.args, o.seq = "mk", args, -1
    return o


def has_cycle(edges):
    """edges: {node: [node]}"""
    state = {}

    def visit(n):
        if state.get(n) == 1:
            return True
        if state.get(n) == 2:
            return False
        state[n] = 1
        r = any(visit(m) for m in edges.get(n, ()))
        state[n] = 2
        return r

    return any(visit(n) for n in edges)


def reaches_cycle(edges, n):
    seen, todo = set(), [n]
    while todo:
        m = todo.pop()
        if m not in seen:
            seen.add(m)
            todo += edges.get(m, ())
    return has_cycle({k: edges.get(k, ()) for k in seen})


def is_diwire(e):
    from diwire.exceptions import DIWireError

    return isinstance(e, DIWireError)


def reported(ctx, what, c, keys, eager, is_async):
    """A cyclic graph is refused, when it is compiled or when a key leading to the cycle is resolved."""
    ctx.reach("cyclic")
    r = outcome(lambda: c.compile())
    if r[0] == "exc":
        ctx.check(is_diwire(r[1]) and "ircular" in str(r[1]), lambda: f"{what}: compiling gave {r[1]!r}")
        return
    for n, key in keys.items():
        if reaches_cycle(eager, n):
            v = aoutcome(lambda: c.aresolve(key)) if is_async else outcome(lambda: c.resolve(key))
            ctx.check(v[0] == "exc" and is_diwire(v[1]), lambda: f"{what}: the cycle behind {n} was not reported: {v!r:.300}")


MARKS = ["plain", "maybe", "provider", "aprovider", "all", "ctx"]


def annotate(mark, key):
    from diwire import All, AsyncProvider, FromContext, Maybe, Provider

    return {"plain": lambda: key, "maybe": lambda: Maybe[key], "provider": lambda: Provider[key], "aprovider": lambda: AsyncProvider[key], "all": lambda: All[key],
            "maybe-ctx": lambda: Maybe[FromContext[key]], "maybe-provider": lambda: Maybe[Provider[key]]}[mark]()


def check_tree(ctx, what, o, n, deps, is_async, depth=0):
    """The resolved value is the node n, with its eager arguments in place and its handles working."""
    ctx.check(getattr(o, "node", None) == n, lambda: f"{what}: expected a {n}, got {o!r}")
    for d, (mark, m) in deps[n].items():
        v = o.args[d]
        if mark in ("plain", "maybe", "default"):
            check_tree(ctx, what, v, m, deps, is_async, depth + 1)
        elif mark == "all":
            ctx.check(type(v) is tuple and len(v) == 1, lambda: f"{what}: All of {m} is {v!r}")
            check_tree(ctx, what, v[0], m, deps, is_async, depth + 1)
        elif mark == "maybe-ctx":
            ctx.check(v is None, lambda: f"{what}: the missing context value is {v!r}")
        else:
            ctx.check(callable(v), lambda: f"{what}: the handle is {v!r}")


def matrix(ctx, n, loops, marks, specials, kinds, lifes, orders):
    from diwire import Lifetime

    w = World(ctx)
    c = strict_container()
    names = ["a", "b", "d", "e", "f"][:n]
    keys = {x: make_class(x.upper()) for x in names}
    special = ctx.pick("special.node", ["-"] + (names if specials else []))
    mark = ctx.pick("special.mark", marks) if special != "-" else "plain"
    kind = ctx.pick("kind", kinds)
    life = getattr(Lifetime, ctx.pick("life", lifes))
    deps = {}
    for x in names:
        deps[x] = {}
        for y in names:
            if (x != y or loops) and ctx.flag(f"{x}->{y}"):
                deps[x][y] = (mark if x == special else "plain", y)
    if special != "-" and not deps[special]:
        return
    eager = {x: [y for m, y in d.values() if m in ("plain", "maybe", "all")] for x, d in deps.items()}
    order = names if ctx.pick("order", orders) == "forward" else names[::-1]
    kd = {x: (kind if kind != "mixed" else ("afn" if i == 0 else "fn")) for i, x in enumerate(names)}
    is_async = any(k in KINDS_ASYNC for k in kd.values())
    for x in order:
        ps = [param(d, annotate(m, keys[y])) for d, (m, y) in deps[x].items()]
        register(c, kd[x], make_provider(w, x, kd[x], keys[x], ps), keys[x], lifetime=life)
    what = f"{ {x: list(d.values()) for x, d in deps.items()} }"
    if has_cycle(eager):
        reported(ctx, what, c, keys, eager, is_async)
        return
    ctx.reach("acyclic")
    r = outcome(lambda: c.compile())
    ctx.check(r[0] == "ok", lambda: f"{what} has no eager cycle, compiling gave {r[1]!r}")
    for x in names:
        v = aoutcome(lambda: c.aresolve(keys[x])) if is_async else outcome(lambda: c.resolve(keys[x]))
        ctx.check(v[0] == "ok", lambda: f"{what} has no eager cycle, resolving {x} gave {v[1]!r}")
        check_tree(ctx, f"{what}: {x}", v[1], x, deps, is_async)
        for d, (m, y) in deps[x].items():
            if m in ("provider", "maybe-provider") and not is_async:
                h = outcome(v[1].args[d])
                ctx.check(h[0] == "ok" and h[1].node == y, lambda: f"{what}: calling the handle of {x} gave {h!r}")
            elif m == "aprovider":
                h = aoutcome(v[1].args[d])
                ctx.check(h[0] == "ok" and h[1].node == y, lambda: f"{what}: calling the handle of {x} gave {h!r}")


def ways(ctx, forms, edges):
    """Cycles of length 1-3 closed through one edge of a special kind, or not closed."""
    from diwire import All, Component, Container, DependencyRegistrationPolicy, Injected, Lifetime, Maybe, MissingPolicy, Provider, ResolverContext, Scope

    form = ctx.pick("form", forms)
    length = ctx.pick("length", [1, 2, 3])
    closed = ctx.flag("closed")
    how = ctx.pick("edge", edges)
    w = World(ctx)
    names = ["a", "b", "d"][:length]
    keys = {x: make_class(x.upper()) for x in names}
    leaf = make_class("Leaf")
    rc = ResolverContext()
    last = names[-1]
    target = keys[names[0]] if closed else leaf
    lazy = how in ("provider", "maybe-provider")
    ann = annotate(how, target)
    real = closed and not lazy
    nxt = {x: keys[names[i + 1]] for i, x in enumerate(names[:-1])}
    what = f"{form}, cycle of {length}, closed={closed}, last edge {how}"

    if form in ("auto", "auto-recursive", "injected function"):
        # plain classes registered on demand
        for x in names:
            k = keys[x]

            def init(self, q):
                self.args = {"q": q}
            init.__annotations__ = {"q": nxt.get(x, ann)}
            k.__init__ = init
        leaf.__init__ = lambda self: None
        c = Container(resolver_context=rc, missing_policy=MissingPolicy.REGISTER_RECURSIVE if form != "auto" else MissingPolicy.REGISTER_ROOT,
                      dependency_registration_policy=DependencyRegistrationPolicy.REGISTER_RECURSIVE if form != "auto" else DependencyRegistrationPolicy.IGNORE)
        if form == "auto":
            for x in names[::-1]:
                c.add(keys[x])
            c.add(leaf)
        if form == "injected function":
            def f(p):
                return p
            f.__annotations__ = {"p": Injected[keys[names[0]]]}
            r = outcome(lambda: rc.inject(f)())
        else:
            r = outcome(lambda: c.resolve(keys[names[0]]))
        verdict(ctx, what, r, real, keys[names[0]])
        return
    c = strict_container(resolver_context=rc)
    register(c, "fn", make_provider(w, "leaf", "fn", leaf), leaf)
    life = Lifetime.SCOPED if ctx.flag("scoped") else Lifetime.TRANSIENT
    for i, x in enumerate(names):
        a = nxt.get(x, ann)
        key = keys[x]
        is_last = x == last
        if form == "explicit" and is_last:
            def prov(q):
                return mk(q=q)
            c.add_factory(prov, provides=key, lifetime=life, dependencies={a: inspect.Parameter("q", inspect.Parameter.POSITIONAL_OR_KEYWORD)})
        elif form == "component" and is_last:
            prov = make_provider(w, x, "fn", key, [param("q", Annotated[a, Component("x")] if False else a)])
            register(c, "fn", prov, key, lifetime=life)
            register(c, "fn", make_provider(w, x + "@x", "fn", key, [param("q", key)]), key, lifetime=life, component="x")
        elif form == "decorator" and is_last:
            register(c, "fn", make_provider(w, x, "fn", key), key, lifetime=life)

            def deco(inner, q):
                return mk(inner=inner, q=q)
            deco.__annotations__ = {"inner": key, "q": a, "return": key}
            c.decorate(provides=key, decorator=deco, inner_parameter="inner")
        elif form == "default" and is_last:
            register(c, "fn", make_provider(w, x, "fn", key, [param("q", a, default=None)]), key, lifetime=life)
        elif form == "keyword-only" and is_last:
            register(c, "fn", make_provider(w, x, "fn", key, [param("q", a, kind=inspect.Parameter.KEYWORD_ONLY)]), key, lifetime=life)
        elif form in ("gen", "cm", "afn", "agen", "cls") and is_last:
            register(c, form, make_provider(w, x, form, key, [param("q", a)]), key, lifetime=life)
        elif form == "rebound" and is_last:
            # first without, then with the edge
            register(c, "fn", make_provider(w, x, "fn", key), key, lifetime=life)
            c.compile()
            register(c, "fn", make_provider(w, x, "fn", key, [param("q", a)]), key, lifetime=life)
        elif form == "unbound" and is_last:
            # first with the cycle, then without
            register(c, "fn", make_provider(w, x, "fn", key, [param("q", keys[names[0]])]), key, lifetime=life)
            r = outcome(lambda: c.compile())
            if length > 0:
                register(c, "fn", make_provider(w, x, "fn", key, [param("q", a)]), key, lifetime=life)
        elif form == "scopes" and is_last:
            register(c, "fn", make_provider(w, x, "fn", key, [param("q", a)]), key, lifetime=Lifetime.TRANSIENT, scope=Scope.APP)
        else:
            register(c, "fn", make_provider(w, x, "fn", key, [param("q", a)]), key, lifetime=life)
    is_async = form in KINDS_ASYNC
    if real:
        reported(ctx, what, c, {x: keys[x] for x in names}, {x: [names[(i + 1) % length]] for i, x in enumerate(names)}, is_async)
        return
    ctx.reach("acyclic")
    top = keys[names[0]]
    r = aoutcome(lambda: c.aresolve(top)) if is_async else outcome(lambda: c.resolve(top))
    ctx.check(r[0] == "ok", lambda: f"{what}: no eager cycle, got {r[1]!r}")


def verdict(ctx, what, r, cyclic, key):
    if cyclic:
        ctx.reach("cyclic")
        ctx.check(r[0] == "exc" and is_diwire(r[1]), lambda: f"{what}: the cycle was not reported: {r!r:.300}")
    else:
        ctx.reach("acyclic")
        ctx.check(r[0] == "ok" and isinstance(r[1], key), lambda: f"{what}: no eager cycle, got {r!r:.300}")


# -- open generics -----------------------------------------------------------------------------------------

def subst(t, arg):
    if t is T:
        return arg
    if isinstance(t, tuple):
        return tuple(subst(x, arg) for x in t)
    return t


def opens(ctx, gdeps, hdeps, lifes, kinds, apis, based):
    """G[T] and H[T] (open), X (ordinary): keys are symbolic terms, the oracle walks them."""
    from diwire import AsyncProvider, Lifetime, Maybe, Provider

    w = World(ctx)
    c = strict_container()
    X, Y = make_class("X"), make_class("Y")
    G, H = new_class("G", (Obj, Generic[T])), new_class("H", (Obj, Generic[T]))
    life = getattr(Lifetime, ctx.pick("life", lifes))
    dg, dh = ctx.pick("G.dep", gdeps), ctx.pick("H.dep", hdeps)
    kind = ctx.pick("kind", kinds)
    # terms: ("G", t), ("H", t), "X"; argument terms: "int", ("list", t), T
    terms = {"none": None, "G[T]": ("G", T), "H[T]": ("H", T), "G[list[T]]": ("G", ("list", T)), "H[list[T]]": ("H", ("list", T)), "G[int]": ("G", "int"), "H[int]": ("H", "int"), "X": "X"}

    def to_type(t):
        if t is T:
            return T
        if t == "int":
            return int
        if t == "str":
            return str
        if t == "X":
            return X
        if t[0] == "list":
            return list[to_type(t[1])]
        return {"G": G, "H": H}[t[0]][to_type(t[1])]

    def dep(d):
        mark, _, name = d.rpartition(":")
        return mark or "plain", terms[name]

    base = ctx.pick("base", based)  # an ordinary registration of G[int]: ends a descent
    rules = {}
    for cls, name, d in ((G, "G", dg), (H, "H", dh)):
        mark, t = dep(d)
        ps = []
        if t is not None:
            ann = {"plain": lambda a: a, "maybe": lambda a: Maybe[a], "provider": lambda a: Provider[a], "aprovider": lambda a: AsyncProvider[a]}[mark](to_type(t))
            ps = [param("q", ann)]
        rules[name] = (mark, t)
        register(c, kind, make_provider(w, name, kind, cls, ps), cls[T], lifetime=life)
    if based and base == "G[list[T]] -> G[T]":
        register(c, kind, make_provider(w, "Gl", kind, G, [param("q", G[T])]), G[list[T]], lifetime=life)
        rules["Gl"] = ("plain", ("G", T))
    register(c, "fn", make_provider(w, "X", "fn", X), X, lifetime=Lifetime.SCOPED)

    def next_key(key):
        f, a = key
        r = rules[f]
        if f == "G" and "Gl" in rules and isinstance(a, tuple) and a[0] == "list":
            r, a = rules["Gl"], a[1]
        mark, t = r
        if t is None or t == "X" or mark not in ("plain", "maybe"):
            return None
        return subst(t, a)

    def endless(key):
        seen = 0
        while key is not None and seen < 40:
            key = next_key(key)
            seen += 1
        return key is not None

    is_async = kind in KINDS_ASYNC or ctx.pick("api", apis) == "async"
    what = f"G[T]({dg}), H[T]({dh}), {base}"
    for key in (("G", "int"), ("H", "str"), ("G", ("list", ("list", "int")))):
        k = to_type(key)
        r = aoutcome(lambda: c.aresolve(k)) if is_async else outcome(lambda: c.resolve(k))
        if endless(key):
            ctx.reach("cyclic")
            ctx.check(r[0] == "exc" and is_diwire(r[1]), lambda: f"{what}: resolving {k} never ends, got {r!r:.200}")
        else:
            ctx.reach("acyclic")
            ctx.check(r[0] == "ok", lambda: f"{what}: resolving {k} gave {r!r:.300}")
            d = 0
            o, kk = r[1], key
            while kk is not None:
                nk = next_key(kk)
                if nk is not None:
                    o = o.args["q"]
                kk = nk
                d += 1
            ctx.check(isinstance(o, Obj), lambda: f"{what}: the value of {k} is incomplete: {o!r}")


GD = ["none", "G[T]", "H[T]", "G[list[T]]", "H[list[T]]", "G[int]", "H[int]", "X", "provider:G[T]", "aprovider:H[T]", "maybe:G[T]", "maybe:H[T]"]
FORMS = ["explicit", "component", "decorator", "default", "keyword-only", "gen", "cm", "cls", "afn", "agen", "rebound", "unbound", "scopes", "auto", "auto-recursive", "injected function"]
PROPERTY = Property(
    "C20",
    [
        Harness("three", matrix, "every graph of 3 nodes (512, self-loops included), all edges eager or those of one node through Maybe, Provider, AsyncProvider, All or Maybe[FromContext]",
                quick=dict(n=3, loops=True, marks=["maybe", "provider", "aprovider", "all", "maybe-ctx"], specials=True, kinds=["fn"], lifes=["SCOPED"], orders=["forward"]),
                thorough=dict(n=3, loops=True, marks=["maybe", "provider", "aprovider", "all", "maybe-ctx", "maybe-provider"], specials=True, kinds=["fn", "mixed", "gen"], lifes=["SCOPED", "TRANSIENT"], orders=["forward", "backward"]),
                reach=("cyclic", "acyclic")),
        Harness("four", matrix, "every graph of 4 nodes without self-loops (4096)",
                quick=dict(n=4, loops=False, marks=["plain"], specials=False, kinds=["mixed"], lifes=["TRANSIENT"], orders=["backward"]),
                thorough=dict(n=4, loops=True, marks=["plain"], specials=False, kinds=["fn", "mixed"], lifes=["TRANSIENT"], orders=["backward"]),
                reach=("cyclic", "acyclic")),
        Harness("ways", ways, "16 ways to declare the last edge of a cycle of 1-3 (explicit dependencies, decorators, components, defaults, provider kinds, re-registration, autoregistration, injected functions), 6 markers, closed or not",
                quick=dict(forms=FORMS, edges=["plain", "maybe", "provider", "all", "maybe-provider"]),
                reach=("cyclic", "acyclic")),
        Harness("open", opens, "two open generics with 12 kinds of dependency each, including growing type arguments, and a specialised descent; 3 keys",
                quick=dict(gdeps=GD, hdeps=GD, lifes=["SCOPED", "TRANSIENT"], kinds=["fn", "afn"], apis=("sync", "async"), based=["none", "G[list[T]] -> G[T]"]),
                reach=("cyclic", "acyclic"), path_timeout=20),
    ],
    outside=["recursion a provider causes itself by calling a handle or the container", "graphs of more than 4 nodes"],
)
