"""C23: Provider handles are lazy and resolve in the scope of their consumer."""
from __future__ import annotations

from types import new_class
from typing import Annotated, Any, Generic, TypeVar

from ..core import Harness, Property
from ..world import KINDS_ASYNC, Fault, Obj, World, aoutcome, make_class, make_provider, outcome, param, register, strict_container

T = TypeVar("T")
LEVEL = {"APP": 1, "REQUEST": 3, "ACTION": 4}


class H:
    """A scope handle, its parent and its level, for the model."""

    def __init__(self, real, level, parent, name):
        self.real, self.level, self.parent, self.name = real, level, parent, name

    def owner(self, level):
        h = self
        while h is not None and h.level > level:
            h = h.parent
        return h if h is not None and h.level == level else None


def handles(ctx, accesses, handle_kinds, kscopes, klifes, xscopes, xlifes, xkinds, deps, ats, betweens, fails, closes):
    """A consumer with a handle to X: laziness, value and scope of every call, what closing cleans up."""
    from diwire import AsyncProvider, Component, Injected, Lifetime, Maybe, Provider, ResolverContext, Scope

    w = World(ctx)
    rc = ResolverContext()
    c = strict_container(resolver_context=rc)
    X, K, S = make_class("X"), make_class("K"), make_class("S")
    B, C = new_class("B", (Obj, Generic[T])), new_class("C", (Obj, Generic[T]))
    access = ctx.pick("access", accesses)
    hk = ctx.pick("handle", handle_kinds)
    kscope = ctx.pick("K.scope", kscopes) if access not in ("direct", "injected") else "APP"
    klife = ctx.pick("K.life", klifes) if access not in ("direct", "injected", "generator consumer") else "SCOPED"
    xscope, xlife, xkind = ctx.pick("X.scope", xscopes), ctx.pick("X.life", xlifes), ctx.pick("X.kind", xkinds)
    dep = ctx.pick("X.dep", deps)
    fail = ctx.pick("fail", fails)
    in_open = access.startswith("open")
    xkey = C[int] if access == "open open" else X
    failing = [fail == "first"]

    def hook(stage, args):
        if stage == "call" and failing[0]:
            failing[0] = False
            raise Fault("planted")
    # a cached value cannot hold one of a deeper scope
    ctx.assume(xlife == "TRANSIENT" or dep == "none" or LEVEL[dep] <= LEVEL[xscope])
    if dep != "none":
        register(c, "fn", make_provider(w, "S", "fn", S), S, lifetime=Lifetime.SCOPED, scope=getattr(Scope, dep))
    ps = [param("s", S)] if dep != "none" else []
    register(c, xkind, make_provider(w, "X", xkind, C if access == "open open" else X, ps, hook=hook), C[T] if access == "open open" else X,
             lifetime=getattr(Lifetime, xlife), scope=getattr(Scope, xscope))
    inner = C[T] if access == "open open" else X
    ann = {"provider": lambda: Provider[inner], "aprovider": lambda: AsyncProvider[inner], "maybe": lambda: Maybe[Provider[inner]], "maybe-async": lambda: Maybe[AsyncProvider[inner]]}[hk]()
    is_async_handle = hk in ("aprovider", "maybe-async")
    kw = dict(lifetime=getattr(Lifetime, klife), scope=getattr(Scope, kscope))
    what = f"{hk} handle in {access} {klife}@{kscope} to X {xkind} {xlife}@{xscope} needing {dep}"
    if access == "class":
        register(c, "cls", make_provider(w, "K", "cls", K, [param("p", ann)]), K, **kw)
    elif access in ("factory", "generator consumer", "async consumer"):
        kd = {"factory": "fn", "generator consumer": "gen", "async consumer": "afn"}[access]
        register(c, kd, make_provider(w, "K", kd, K, [param("p", ann)]), K, **kw)
    elif access == "decorator":
        register(c, "fn", make_provider(w, "base", "fn", K), K, **kw)
        c.decorate(provides=K, decorator=make_provider(w, "K", "fn", K, [param("inner", K), param("p", ann)]))
    elif access == "shared":
        # two consumers of the same key behind a third one
        register(c, "fn", make_provider(w, "K", "fn", K, [param("p", ann)]), Annotated[K, Component("a")], **kw)
        register(c, "fn", make_provider(w, "top", "fn", K, [param("k", Annotated[K, Component("a")])]), K, **{**kw, "lifetime": Lifetime.TRANSIENT})
    elif in_open:
        register(c, "fn", make_provider(w, "K", "fn", B, [param("p", ann)]), B[T], **kw)

    refused = LEVEL[xscope] > LEVEL[kscope] and access not in ("direct", "injected") and not in_open
    if refused:
        r = outcome(lambda: c.compile())
        ctx.check(r[0] == "exc", lambda: f"{what}: the handle to a deeper scope was accepted")
        ctx.reach("refused")
        return
    root = H(c, 1, None, "root")
    r1 = H(c.enter_scope(Scope.REQUEST), 3, root, "r1")
    r2 = H(c.enter_scope(Scope.REQUEST), 3, root, "r2")
    a1 = H(r1.real.enter_scope(Scope.ACTION), 4, r1, "a1")
    at = {"root": root, "r1": r1, "a1": a1}[ctx.pick("at", ats)]
    what += f", resolved from {at.name}"
    own = at if access in ("direct", "injected") else at.owner(LEVEL[kscope])

    def count():
        return len([e for e in w.log if e[0] == "new" and e[1] == "X"])

    def get():
        if access == "direct":
            return outcome(lambda: at.real.resolve(Provider[X] if not is_async_handle and hk == "provider" else ann))
        if access == "injected":
            def f(p):
                return p
            f.__annotations__ = {"p": Injected[ann]}
            return outcome(lambda: rc.inject(f, auto_open_scope=False)(diwire_resolver=at.real))
        key = B[int] if in_open else K
        r = aoutcome(lambda: at.real.aresolve(key)) if access == "async consumer" else outcome(lambda: at.real.resolve(key))
        if r[0] == "exc":
            return r
        return ("ok", r[1].args["k"].args["p"] if access == "shared" else r[1].args["p"])
    r = get()
    if own is None:
        ctx.check(r[0] == "exc", lambda: f"{what}: resolved outside its scope")
        return
    ctx.check(r[0] == "ok", lambda: f"{what}: {r[1]!r}")
    handle = r[1]
    ctx.check(count() == 0 and not w.log.count(("new", "S")), lambda: f"{what}: X was built before the handle was called")

    def call(h=handle):
        return aoutcome(h) if is_async_handle else outcome(h)

    def model(v):
        """Check one outcome of the handle against the consumer's own scope."""
        needs = LEVEL[xscope] if dep == "none" else max(LEVEL[xscope], LEVEL[dep])
        if own.level < needs:
            ctx.reach("deeper")
            ctx.check(v[0] == "exc" and not isinstance(v[1], Fault), lambda: f"{what}: calling the handle gave {v!r}, X needs a deeper scope")
            return None
        if xkind in KINDS_ASYNC and not is_async_handle:
            # a cached value may be handed out
            ctx.check(v[0] == "exc" or (between == "cached first" and xlife == "SCOPED" and v[1].node == "X"), lambda: f"{what}: a sync handle to an async X gave {v!r}")
            return None
        ctx.check(v[0] == "ok", lambda: f"{what}: calling the handle raised {v[1]!r}")
        ctx.check(v[1].node == "X", lambda: f"{what}: calling the handle gave {v[1]!r}")
        if dep != "none":
            s = own.owner(LEVEL[dep]).real.resolve(S)
            ctx.check(v[1].args["s"] is s, lambda: f"{what}: X was built with {v[1].args['s']!r} of another scope")
        if xlife == "SCOPED":
            o = own.owner(LEVEL[xscope])
            d = aoutcome(lambda: o.real.aresolve(xkey)) if xkind in KINDS_ASYNC else outcome(lambda: o.real.resolve(xkey))
            ctx.check(d[1] is v[1], lambda: f"{what}: the handle gave {v[1]!r}, its scope holds {d[1]!r}")
            if r2.owner(LEVEL[xscope]) not in (None, o):
                d = aoutcome(lambda: r2.real.aresolve(xkey)) if xkind in KINDS_ASYNC else outcome(lambda: r2.real.resolve(xkey))
                ctx.check(d[1] is not v[1], lambda: f"{what}: the handle gave the value of another scope")
        return v[1]

    between = ctx.pick("between", betweens)
    if between == "cached first" and own.owner(LEVEL[xscope]) is not None:
        # somebody else resolves X in the same scope before
        failing[0] = False
        k = own.owner(LEVEL[xscope])
        d = aoutcome(lambda: k.real.aresolve(xkey))
    if failing[0]:
        v = call()
        if own.level >= (LEVEL[xscope] if dep == "none" else max(LEVEL[xscope], LEVEL[dep])) and not (xkind in KINDS_ASYNC and not is_async_handle):
            ctx.check(v[0] == "exc" and isinstance(v[1], Fault), lambda: f"{what}: the failing call gave {v!r}")
        failing[0] = False
    first = model(call())
    if between == "sibling":
        with_h = c.enter_scope(Scope.REQUEST)
        outcome(lambda: with_h.resolve(xkey))
        outcome(lambda: with_h.resolve(B[int] if in_open else K))
        aoutcome(lambda: with_h.aclose())
    if between == "sibling open":
        other = (at.parent or at).real.enter_scope(Scope.REQUEST if at.level < 4 else Scope.ACTION)
        outcome(lambda: other.resolve(xkey))
    second = model(call())
    if first is None or second is None:
        return
    ctx.reach("called")
    ctx.check((first is second) == (xlife == "SCOPED"), lambda: f"{what}: the second call gave {'the same' if first is second else 'another'} object")
    h2 = get()
    third = model(call(h2[1]))
    ctx.check((third is first) == (xlife == "SCOPED"), lambda: f"{what}: a second handle gave {'the same' if third is first else 'another'} object")
    if ctx.pick("close", closes) == "yes":
        xs = [o for o in (first, second, third)]
        def finished():
            return [e[2] for e in w.log if e[0] == "fin" and e[1] == "X"]
        done0 = len(finished())
        ctx.check(not any(o is f for o in xs for f in finished()), lambda: f"{what}: cleaned up before its scope closed")
        home = own.owner(LEVEL[xscope])
        for h in (a1, r1):
            k = len(w.log)
            res = aoutcome(lambda: h.real.aclose())
            ctx.check(res[0] == "ok", lambda: f"{what}: closing {h.name} raised {res[1]!r}")
            fin = finished()
            if xkind in ("gen", "cm", "agen", "acm"):
                for o in {id(o): o for o in xs}.values():
                    n = sum(1 for f in fin if f is o)
                    due = home is h or (home is a1 and h is r1)
                    ctx.check(n == (1 if due else 0), lambda: f"{what}: after closing {h.name} the value of the handle was cleaned up {n} times")
                order = [e[2] for e in w.log[k:] if e[0] == "fin"]
                seqs = [o.seq for o in order]
                ctx.check(seqs == sorted(seqs, reverse=True), lambda: f"{what}: closing {h.name} cleaned up in the order {order}")


ACC = ["class", "factory", "generator consumer", "async consumer", "decorator", "shared", "open", "open open", "direct", "injected"]
PROPERTY = Property(
    "C23",
    [
        Harness("handles", handles, "10 kinds of consumer, 4 kinds of handle, scopes and lifetimes of both ends, a dependency of X in any scope, 3 handles to resolve from, failures, siblings, closing",
                quick=dict(accesses=ACC, handle_kinds=["provider", "aprovider"], kscopes=["APP", "REQUEST"], klifes=["SCOPED", "TRANSIENT"], xscopes=["APP", "REQUEST"], xlifes=["SCOPED", "TRANSIENT"],
                           xkinds=["gen", "afn"], deps=["none", "APP", "REQUEST"], ats=["root", "r1", "a1"], betweens=["no", "sibling"], fails=["no", "first"], closes=["yes"]),
                thorough=dict(accesses=ACC, handle_kinds=["provider", "aprovider", "maybe", "maybe-async"], kscopes=["APP", "REQUEST", "ACTION"], klifes=["SCOPED", "TRANSIENT"], xscopes=["APP", "REQUEST", "ACTION"],
                              xlifes=["SCOPED", "TRANSIENT"], xkinds=["fn", "gen", "cm", "afn", "agen"], deps=["none", "APP", "REQUEST", "ACTION"], ats=["root", "r1", "a1"],
                              betweens=["no", "sibling", "sibling open", "cached first"], fails=["no", "first"], closes=["yes"]),
                reach=("called", "refused", "deeper")),
    ],
    outside=["calling a handle after its scope was closed", "calling a handle while its consumer is being built", "handles kept across a later registration"],
)
