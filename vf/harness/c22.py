"""C22: Maybe dependencies are the value if registered, else the default or None."""
from __future__ import annotations

import inspect
from types import new_class
from typing import Annotated, Any, Generic, TypeVar

from ..core import Harness, Property
from ..world import KO, PK, POS, KINDS_ASYNC, Fault, Obj, World, aoutcome, make_class, make_provider, outcome, param, register, strict_container

T = TypeVar("T")
DEFAULT = Obj()
DEFAULT.node = "default"


def maybe(ctx, inners, presences, accesses, faults, defaults, kinds, pkinds, apis, scopes, lifes):
    """One Maybe dependency: what it names, whether it is there, how it fails, and every way to ask for it."""
    from diwire import All, AsyncProvider, Component, FromContext, Injected, Lifetime, Maybe, Provider, ResolverContext, Scope
    from diwire.exceptions import DIWireDependencyNotRegisteredError

    w = World(ctx)
    rc = ResolverContext()
    c = strict_container(resolver_context=rc)
    X, K, U, CK = make_class("X"), make_class("K"), make_class("U"), make_class("CK")
    G, H = new_class("G", (Obj, Generic[T])), new_class("H", (Obj, Generic[T]))
    inner = ctx.pick("inner", inners)
    presence = ctx.pick("presence", presences)
    access = ctx.pick("access", accesses)
    fault = ctx.pick("fault", faults) if presence in ("yes", "late") and inner != "context" else "no"
    kind = ctx.pick("kind", kinds)
    scope = ctx.pick("scope", scopes)
    life = getattr(Lifetime, ctx.pick("life", lifes))
    is_param = access not in ("direct",)
    default = ctx.pick("default", defaults) if is_param else "no"
    pkind = {"POS": POS, "PK": PK, "KO": KO}[ctx.pick("pkind", pkinds)] if is_param else PK
    api = ctx.pick("api", apis)
    sc = getattr(Scope, scope)
    in_open = access in ("open factory", "open class")
    needs_open = inner in ("G open",)
    # a provider sees the context values of its own scope
    if inner == "context" and presence == "yes" and access not in ("direct", "injected"):
        ctx.assume(scope == "REQUEST")
    # an ordinary provider can only name keys registered as they are
    if needs_open and access in ("factory", "class", "async factory", "generator", "explicit", "decorator"):
        ctx.assume(False)
    # a handle to a key that is not registered is refused when a parameter asks for it
    if inner in ("provider", "aprovider") and presence in ("no", "other"):
        ctx.assume(access == "direct")

    a, b = Annotated[X, Component("a")], Annotated[X, Component("b")]
    key, other = {"X": (X, a), "X@a": (a, b), "X meta": (Annotated[X, "m"], a), "X@a meta": (Annotated[X, "m", Component("a")], b), "G closed": (G[int], G[str]), "G open": (G[int], H[int]),
                  "provider": (X, a), "aprovider": (X, a), "context": (CK, U), "all": (X, U), "all@a": (X, U)}[inner]
    ann = {"provider": lambda: Provider[key], "aprovider": lambda: AsyncProvider[key], "context": lambda: FromContext[key], "all": lambda: All[key], "all@a": lambda: All[key]}.get(inner, lambda: key)()
    ann = Maybe[ann]
    w_err = []

    def hook(stage, args):
        if stage != "call":
            return
        if fault == "fault":
            w_err.append(Fault("planted"))
            raise w_err[-1]
        if fault == "missing inside":
            try:
                c.resolve(U)
            except DIWireDependencyNotRegisteredError as e:
                w_err.append(e)
                raise

    def provide(k, label):
        ps = [param("cv", FromContext[U])] if fault == "context" and label == "value" else []
        cls = X if k in (X, a, b) else G
        declared = {G[int]: G[T] if inner == "G open" else G[int]}.get(k, k) if cls is G else k
        register(c, kind, make_provider(w, label, kind, cls, ps, hook=hook if label == "value" else None), declared, lifetime=life, scope=sc)

    def value_there():
        if inner == "context":
            return
        provide({"X meta": X, "X@a meta": a, "all@a": a}.get(inner, key), "value")
    if presence == "yes":
        value_there()
    if presence == "other" and inner != "context":
        if inner == "G open":
            register(c, "fn", make_provider(w, "other", "fn", H), H[T], scope=sc)
        elif inner in ("all", "all@a"):
            register(c, "fn", make_provider(w, "other", "fn", U), U, scope=sc)
        else:
            provide(other, "other")

    is_async = kind in KINDS_ASYNC or api == "async"
    p = param("q", ann, kind=pkind, **({"default": DEFAULT} if default == "object" else {"default": None} if default == "None" else {}))
    got = {}
    if access == "factory":
        register(c, "fn", make_provider(w, "K", "fn", K, [p]), K, lifetime=Lifetime.TRANSIENT, scope=sc)
    elif access == "class":
        register(c, "cls", make_provider(w, "K", "cls", K, [p]), K, lifetime=Lifetime.TRANSIENT, scope=sc)
    elif access == "async factory":
        register(c, "afn", make_provider(w, "K", "afn", K, [p]), K, lifetime=Lifetime.TRANSIENT, scope=sc)
        is_async = True
    elif access == "generator":
        register(c, "gen", make_provider(w, "K", "gen", K, [p]), K, lifetime=Lifetime.SCOPED, scope=sc)
    elif access == "explicit":
        bare = p.replace(annotation=inspect.Parameter.empty)
        c.add_factory(make_provider(w, "K", "fn", K, [bare]), provides=K, lifetime=Lifetime.TRANSIENT, scope=sc, dependencies={ann: bare})
    elif access == "decorator":
        register(c, "fn", make_provider(w, "base", "fn", K), K, lifetime=Lifetime.TRANSIENT, scope=sc)
        ps = [param("inner", K, kind=POS if pkind is POS else PK), p]
        c.decorate(provides=K, decorator=make_provider(w, "K", "fn", K, ps))
    elif in_open:
        if access == "open class":
            impl = new_class("Impl", (H[T],))
            register(c, "cls", make_provider(w, "K", "cls", impl, [p]), H[T], lifetime=Lifetime.TRANSIENT, scope=sc) if inner != "G open" or presence != "other" else ctx.assume(False)
        else:
            if presence == "other" and inner == "G open":
                ctx.assume(False)
            register(c, "fn", make_provider(w, "K", "fn", H, [p]), H[T], lifetime=Lifetime.TRANSIENT, scope=sc)

    value = w.new("ctxvalue", {})
    has_ctx = inner == "context" and presence == "yes"
    if inner == "context" and presence == "late":
        ctx.assume(False)
    what = f"Maybe[{inner}] ({presence}{', failing: ' + fault if fault != 'no' else ''}) by {access} {p.kind.name if is_param else ''} default={default} {kind} {scope} {api}"

    def ask():
        h = c
        opened = None
        if scope != "APP" or has_ctx:
            h = c.enter_scope(Scope.REQUEST, **({"context": {CK: value}} if has_ctx else {}))
        if access == "direct":
            return aoutcome(lambda: h.aresolve(ann)) if is_async else outcome(lambda: h.resolve(ann))
        if access == "injected":
            def run(*args, **kw):
                return None
            names = []
            if is_async:
                async def f(*args, **kw):
                    return args[0] if args else kw.get("q", p.default)
            else:
                def f(*args, **kw):
                    return args[0] if args else kw.get("q", p.default)
            dep = ann if inner == "context" else Injected[ann]
            f.__signature__ = inspect.Signature([p.replace(annotation=dep)])
            f.__annotations__ = {"q": dep}
            g = rc.inject(f)
            r = aoutcome(lambda: g(diwire_resolver=h)) if is_async else outcome(lambda: g(diwire_resolver=h))
            return r
        k = H[int] if in_open else K
        r = aoutcome(lambda: h.aresolve(k)) if is_async else outcome(lambda: h.resolve(k))
        return ("ok", r[1].args["q"]) if r[0] == "ok" else r

    def check(r, there):
        if there and fault != "no" and inner not in ("provider", "aprovider"):
            ctx.reach("failing")
            ctx.check(r[0] == "exc", lambda: f"{what}: the error building the value became {r!r}")
            if fault == "context":
                ctx.check(isinstance(r[1], DIWireDependencyNotRegisteredError), lambda: f"{what}: raised {r[1]!r}")
            else:
                ctx.check(any(r[1] is e for e in w_err), lambda: f"{what}: raised {r[1]!r} instead of the provider's own error")
            return
        ctx.check(r[0] == "ok", lambda: f"{what}: raised {r[1]!r}")
        v = r[1]
        if inner in ("all", "all@a"):
            # All always has a value: every registered one
            ctx.check(type(v) is tuple and [o.node for o in v] == (["value"] if there else []), lambda: f"{what}: got {v!r}")
            return
        if inner in ("provider", "aprovider"):
            ctx.check(callable(v), lambda: f"{what}: got {v!r}")
            sync_impossible = inner == "provider" and kind in KINDS_ASYNC
            x = aoutcome(v) if inner == "aprovider" else outcome(v)
            if not there or fault != "no" or sync_impossible:
                ctx.check(x[0] == "exc", lambda: f"{what}: calling the handle gave {x!r}")
            else:
                ctx.check(x[0] == "ok" and x[1].node == "value", lambda: f"{what}: calling the handle gave {x!r}")
            return
        if there:
            ctx.reach("present")
            ctx.check(v is value if inner == "context" else getattr(v, "node", None) == "value", lambda: f"{what}: got {v!r}")
            if life is Lifetime.SCOPED and kind != "cls" and access == "direct" and scope == "APP" and inner != "context":
                ctx.check((aoutcome(lambda: c.aresolve(key)) if is_async else outcome(lambda: c.resolve(key)))[1] is v, lambda: f"{what}: not the value of {key}")
        else:
            ctx.reach("absent")
            ctx.check(v is (DEFAULT if default == "object" else None), lambda: f"{what}: got {v!r}")

    if presence == "late":
        check(ask(), False) if inner not in ("provider", "aprovider") else None
        value_there()
        check(ask(), True)
        return
    check(ask(), presence == "yes")


def retry(ctx, kinds, apis, failures):
    """A registered closed key whose build fails is not replaced by what an open registration or the bare key would give."""
    from diwire import Component, FromContext, Lifetime, Maybe
    from diwire.exceptions import DIWireDependencyNotRegisteredError

    w = World(ctx)
    c = strict_container()
    G, U = new_class("G", (Obj, Generic[T])), make_class("U")
    kind, api, failure = ctx.pick("kind", kinds), ctx.pick("api", apis), ctx.pick("failure", failures)
    calls = []

    def hook(stage, args):
        if stage == "call":
            calls.append(1)
            if failure == "missing inside":
                c.resolve(U)
            if failure == "fault":
                raise Fault("planted")
    ps = [param("u", FromContext[U])] if failure == "context" else []
    spell = ctx.pick("spell", ["G[int]", "meta", "comp"])
    declared = Annotated[G[int], Component("a")] if spell == "comp" else G[int]
    register(c, kind, make_provider(w, "closed", kind, G, ps, hook=hook), declared, lifetime=Lifetime.SCOPED)
    if ctx.flag("open"):
        register(c, "fn", make_provider(w, "open", "fn", G), Annotated[G[T], Component("a")] if spell == "comp" else G[T], lifetime=Lifetime.SCOPED)
    if spell == "comp" and ctx.flag("bare"):
        register(c, "fn", make_provider(w, "bare", "fn", G), G[int], lifetime=Lifetime.SCOPED)
    key = Annotated[G[int], "m"] if spell == "meta" else declared
    if ctx.flag("maybe"):
        key = Maybe[key]
    h = c.enter_scope() if ctx.flag("in scope") else c
    r = aoutcome(lambda: h.aresolve(key)) if kind in KINDS_ASYNC or api == "async" else outcome(lambda: h.resolve(key))
    if failure == "no":
        ctx.reach("built")
        ctx.check(r[0] == "ok" and r[1].node == "closed", lambda: f"{key}: {r!r}")
    else:
        ctx.reach("failed")
        ctx.check(r[0] == "exc" and isinstance(r[1], Fault if failure == "fault" else DIWireDependencyNotRegisteredError), lambda: f"{key} failing with {failure}: got {r!r}")
        ctx.check(len(calls) == (0 if failure == "context" else 1), lambda: f"{key} failing with {failure}: the provider ran {len(calls)} times")


ACC = ["direct", "factory", "class", "async factory", "generator", "explicit", "decorator", "injected", "open factory", "open class"]
INN = ["X", "X@a", "X meta", "X@a meta", "G closed", "G open", "provider", "aprovider", "context", "all", "all@a"]
PROPERTY = Property(
    "C22",
    [
        Harness("maybe", maybe, "11 kinds of inner key, present/absent/only another key/registered later, 4 ways to fail, 10 ways to ask, 3 defaults, parameter kinds, provider kinds, scopes",
                quick=dict(inners=INN, presences=["yes", "no", "other", "late"], accesses=ACC, faults=["no", "fault", "context", "missing inside"], defaults=["no", "object"],
                           kinds=["fn", "afn"], pkinds=["PK", "KO"], apis=["sync"], scopes=["APP", "REQUEST"], lifes=["SCOPED"]),
                thorough=dict(inners=INN, presences=["yes", "no", "other", "late"], accesses=ACC, faults=["no", "fault", "context", "missing inside"], defaults=["no", "object", "None"],
                              kinds=["fn", "gen", "cm", "afn", "agen"], pkinds=["PK", "KO", "POS"], apis=["sync", "async"], scopes=["APP", "REQUEST"], lifes=["SCOPED", "TRANSIENT"]),
                reach=("present", "absent", "failing")),
        Harness("retry", retry, "a closed generic key (plain, with metadata, component) with an open and a bare registration next to it, failing in 3 ways",
                quick=dict(kinds=["fn", "afn", "gen"], apis=["sync", "async"], failures=["no", "fault", "context", "missing inside"]),
                reach=("built", "failed")),
    ],
    outside=["Maybe on *args/**kwargs parameters (C14 covers their form)", "unregistered Maybe[Provider[X]] parameters (refused at compilation)", "autoregistration (C24)"],
)
