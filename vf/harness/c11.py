"""C11: FromContext yields the value of the nearest open scope providing the key."""
from __future__ import annotations

import inspect
from types import new_class
from typing import Annotated, Generic, TypeVar

from ..core import Harness, Property
from ..refmodel import (
    Dep, Handle, Matcher, Node, build_graph, do_resolve, err_kind, open_handle,
)
from ..world import KINDS_ASYNC, POS, PK, KO, World, aoutcome, make_class, make_provider, outcome, param, strict_container
from .c04 import add_box

VALS = {"None": None, "0": 0, "obj": object(), "obj2": object(), "empty": ""}
CTXS = {
    "none": None, "empty": {}, "K=None": {"K": "None"}, "K=0": {"K": "0"}, "K=obj": {"K": "obj"},
    "O=obj": {"O": "obj"}, "K+O": {"K": "obj2", "O": "0"}, "C=obj": {"C": "obj"}, "K+C": {"K": "obj2", "C": "empty"},
}


def keys():
    from diwire import Component

    K = make_class("K")
    O = make_class("O")
    C = Annotated[K, Component("x")]
    spell = {
        "K": [K, Annotated[K, "m"]],
        "O": [O, Annotated[O, 1, "m"]],
        "C": [C, Annotated[K, "m", Component("x"), 3]],
    }
    return {"K": K, "O": O, "C": C}, spell


def tree(ctx, ctxs, opens, nkinds, lifes, scopes, marks, defaults, wrapped, chain, apis, reopen, spells, entry, which):
    from diwire import FromContext, Injected, Lifetime, Maybe, Scope, ResolverContext

    w = World(ctx)
    kk, spell = keys()
    c = strict_container()
    wanted = ctx.pick("key", which)
    key = kk[wanted]
    asked = ctx.pick("spelling", spell[wanted][:spells])
    nodes = []
    dflt = object()
    if nkinds:
        kind = ctx.pick("X.kind", nkinds)
        life = ctx.pick("X.life", [getattr(Lifetime, x) for x in lifes])
        mark = ctx.pick("X.marker", marks)
        d = Dep("v", None, mark, kind=ctx.pick("X.pkind", [PK, KO, POS]) if mark == "ctx" else PK, ctx_key=key,
                default=dflt if mark == "maybectx" and ctx.pick("X.default", defaults) else inspect.Parameter.empty)
        x = Node("X", kind, life, getattr(Scope, ctx.pick("X.scope", scopes)), deps=[d])
        nodes.append(x)
        x.key = x.cls = make_class("X")
        d.ann_key = asked
        if ctx.pick("chain", chain):
            y = Node("Y", "fn", Lifetime.TRANSIENT, Scope.REQUEST, deps=[Dep("x", "X")])
            y.key = y.cls = make_class("Y")
            nodes.append(y)
    # the model looks up the normalised key; the provider is annotated with the spelled one
    for n in nodes:
        for d in n.deps:
            if d.marker in ("ctx", "maybectx"):
                d.model_key, d.ctx_key = key, asked
    model = build_graph(ctx, w, c, nodes)
    for n in nodes:
        for d in n.deps:
            if d.marker in ("ctx", "maybectx"):
                d.ctx_key = key
    if ctx.pick("wrapped", wrapped):
        add_box(w, c)
    root = c.compile() if ctx.pick("entry", entry) == "compiled" else c
    hs = {"root": Handle("root", 1, None, None, root)}
    mt = Matcher(ctx, model, w)

    def mapping(name, parent_of=None):
        spec = CTXS[ctx.pick(name, ctxs)]
        if spec is None:
            return None
        return {kk[k]: VALS[v] for k, v in spec.items()}

    def probe(h, is_async):
        want = model.ctx_lookup(key, h)
        r = do_resolve(h.real, FromContext[asked], is_async)
        if want is None:
            ctx.reach("missing")
            ctx.check(r[0] == "exc" and err_kind(r[1]) == "notreg", lambda: f"FromContext from {h.name} gave {r!r}, no scope provides it")
        else:
            ctx.reach("found")
            ctx.check(r[0] == "ok" and r[1] is want[1], lambda: f"FromContext from {h.name} gave {r!r}, expected {want!r}")
        r = do_resolve(h.real, Maybe[FromContext[asked]], is_async)
        exp = None if want is None else want[1]
        ctx.check(r[0] == "ok" and r[1] is exp, lambda: f"Maybe[FromContext] from {h.name} gave {r!r}, expected {exp!r}")
        for n in nodes:
            if not is_async and model.requires_async(n):
                continue
            errs = model.errors(n, h, is_async)
            r = do_resolve(h.real, n.key, is_async)
            if errs:
                ctx.check(r[0] == "exc" and err_kind(r[1]) in errs, lambda: f"resolve({n.name}) from {h.name} gave {r!r}, expected {errs}")
                model.fuzzy = True
            else:
                ctx.check(r[0] == "ok", lambda: f"resolve({n.name}) from {h.name} raised {r[1]!r}")
                mt.match(r[1], model.value(n, h), f"{h.name}.{n.name}")

    parents = ["root"]
    for i, lv in enumerate(opens):
        parent = parents[ctx.pick(f"o{i}.parent", list(range(len(parents))))]
        levels = [x for x in lv if x > hs[parent].level]
        if not levels:
            return
        level = ctx.pick(f"o{i}.level", levels)
        name = f"s{i}"
        open_handle(hs, name, parent, Scope, level, mapping(f"o{i}.ctx"))
        parents.append(name)
        if apis and ctx.flag(f"o{i}.probe"):
            probe(hs[name], False)
    if reopen:
        # close the last scope (and forget it), then open the same level again
        last = hs.pop(parents.pop())
        r = outcome(lambda: last.real.close()) if not any(model.requires_async(n) for n in nodes) else aoutcome(lambda: last.real.aclose())
        ctx.check(r[0] == "ok", lambda: f"close raised {r[1]!r}")
        open_handle(hs, "again", last.parent.name if last.parent.name in hs else "root", Scope, last.level, mapping("again.ctx"))
    for is_async in apis or (False,):
        for h in list(hs.values()):
            if h.real is not None:
                probe(h, is_async)
    mt.counts()


def injected(ctx, ctxs, opens, scopes, forms, wrapped, kinds):
    """Injected callables: values from the active scope chain or from diwire_context."""
    from diwire import FromContext, Injected, Lifetime, Maybe, ResolverContext, Scope

    w = World(ctx)
    kk, spell = keys()
    rc = ResolverContext()
    mode = ctx.pick("binding", ["bound", "explicit"])
    c = strict_container(resolver_context=rc, use_resolver_context=mode == "bound")
    reg = ctx.pick("reg", kinds)
    Z = make_class("Z")
    if reg != "none":
        c.add_factory(make_provider(w, "Z", "fn", Z), provides=Z, scope=Scope.REQUEST, lifetime=Lifetime.SCOPED) if reg == "fn" else \
            c.add_generator(make_provider(w, "Z", "gen", Z), provides=Z, scope=Scope.REQUEST, lifetime=Lifetime.SCOPED)
    if ctx.pick("wrapped", wrapped):
        add_box(w, c)
    form = ctx.pick("form", forms)
    key = kk["K"]
    asked = ctx.pick("spelling", spell["K"])
    dflt = object()
    is_async = ctx.flag("async")
    ann = {"ctx": FromContext[asked], "ctx-default": FromContext[asked], "inj": Injected[FromContext[asked]],
           "maybe": Injected[Maybe[FromContext[asked]]], "maybe-default": Injected[Maybe[FromContext[asked]]],
           "maybectx": Maybe[FromContext[asked]], "maybectx-default": Maybe[FromContext[asked]]}[form]
    if is_async:
        async def f(*a, **k):
            return (a, k)
    else:
        def f(*a, **k):
            return (a, k)
    has_default = form.endswith("default")
    f.__signature__ = inspect.Signature([param("v", ann, KO, dflt if has_default else inspect.Parameter.empty)])
    f.__annotations__ = {"v": ann}
    scope = ctx.pick("scope", scopes)
    kw = {} if scope is None else {"scope": getattr(Scope, scope)}
    g = rc.inject(**kw)(f)
    root = c.compile()
    hs = {"root": Handle("root", 1, None, None, root)}
    chain = ["root"]
    for i, lv in enumerate(opens):
        level = ctx.pick(f"o{i}.level", [None, *lv])
        if level is None or level <= hs[chain[-1]].level:
            continue
        spec = CTXS[ctx.pick(f"o{i}.ctx", ctxs)]
        m = None if spec is None else {kk[k]: VALS[v] for k, v in spec.items()}
        open_handle(hs, f"s{i}", chain[-1], Scope, level, m)
        chain.append(f"s{i}")
    h = hs[chain[-1]]
    target = 1 if scope is None else getattr(Scope, scope).level
    opened = target > h.level
    spec = CTXS[ctx.pick("call.ctx", ctxs)]
    call_ctx = None if spec is None else {kk[k]: VALS[v] for k, v in spec.items()}
    callkw = {}
    if call_ctx is not None:
        callkw["diwire_context"] = call_ctx
    passed = ctx.flag("passed")
    mine = object()
    if passed:
        callkw["v"] = mine

    def call():
        if mode == "bound":
            import contextlib
            with contextlib.ExitStack() as st:
                for n in chain:
                    st.enter_context(hs[n].real)
                return aoutcome(lambda: g(**callkw)) if is_async else outcome(lambda: g(**callkw))
        return aoutcome(lambda: g(diwire_resolver=h.real, **callkw)) if is_async else outcome(lambda: g(diwire_resolver=h.real, **callkw))

    r = call()
    if call_ctx is not None and not opened:
        ctx.reach("no-scope")
        ctx.check(r[0] == "exc" and "DIWireInvalidRegistrationError" in type(r[1]).__name__,
                  lambda: f"diwire_context without a new scope gave {r!r}")
        return
    model_h = h
    if opened:
        model_h = Handle("call", target, h, call_ctx)
    from ..refmodel import Model

    want = Model([]).ctx_lookup(key, model_h)
    if passed:
        want = ("lit", mine)
    if want is not None:
        ctx.reach("found")
        ctx.check(r[0] == "ok" and r[1][1].get("v", dflt) is want[1], lambda: f"{form}: got {r!r}, expected {want!r}")
    elif form.startswith("maybe"):
        ctx.reach("absent")
        exp = dflt if has_default else None
        ctx.check(r[0] == "ok" and r[1][1].get("v", dflt) is exp, lambda: f"{form}: got {r!r}, expected {'the default' if has_default else None}")
    else:
        ctx.reach("missing")
        ctx.check(r[0] == "exc" and err_kind(r[1]) == "notreg", lambda: f"{form}: got {r!r}, no scope provides the value")


PROPERTY = Property(
    "C11",
    [
        Harness("handles", tree,
                "no provider (stateless scope reuse): 2 scopes at any level below any handle, 5 context mappings each (9 in the thorough tier), 2-3 keys in 2 spellings, resolve(FromContext) and Maybe, both APIs",
                quick=dict(ctxs=["none", "K=None", "K=obj", "C=obj", "K+C"], opens=[[2, 3, 4], [3, 4, 5]], nkinds=[], lifes=[], scopes=[], marks=[], defaults=[], wrapped=[False, True],
                           chain=[False], apis=(False, True), reopen=False, spells=2, entry=["compiled", "container"], which=["K", "C"]),
                thorough=dict(ctxs=list(CTXS), which=["K", "C", "O"], opens=[[2, 3, 4], [3, 4, 5], [2, 3, 4, 5]]),
                reach=("found", "missing")),
        Harness("providers", tree,
                "provider parameter of every kind with FromContext or Maybe[FromContext], 3 scopes, 2 lifetimes; 2 scopes with contexts",
                quick=dict(ctxs=["none", "K=None", "K=obj", "O=obj"], opens=[[3], [3, 4]], nkinds=["cls", "fn", "gen", "cm", "afn", "agen"], lifes=["SCOPED", "TRANSIENT"],
                           scopes=["APP", "REQUEST", "ACTION"], marks=["ctx", "maybectx"], defaults=[False, True], wrapped=[False], chain=[False],
                           apis=(False, True), reopen=False, spells=1, entry=["compiled"], which=["K"]),
                thorough=dict(ctxs=["none", "K=None", "K=obj", "O=obj", "K+C"], opens=[[2, 3], [3, 4]], wrapped=[False, True], chain=[False, True], spells=2, which=["K", "C"]),
                reach=("found", "missing")),
        Harness("chains", tree,
                "a consumer of a context-dependent provider, also next to open generics; 2 scopes",
                quick=dict(ctxs=["none", "K=0", "K=obj"], opens=[[2, 3], [3, 4]], nkinds=["fn", "gen"], lifes=["SCOPED", "TRANSIENT"],
                           scopes=["APP", "SESSION", "ACTION"], marks=["ctx", "maybectx"], defaults=[True], wrapped=[False, True], chain=[True],
                           apis=(False,), reopen=False, spells=1, entry=["compiled"], which=["K"]),
                thorough=dict(ctxs=["none", "K=0", "K=obj", "empty", "K+O"], apis=(False, True)),
                reach=("found", "missing")),
        Harness("reopen", tree,
                "a scope with a context is closed and the level entered again (pooled and reused resolvers): nothing stale is seen",
                quick=dict(ctxs=["none", "K=obj", "K+O"], opens=[[3, 4], [3, 4]], nkinds=["fn", "gen"], lifes=["SCOPED", "TRANSIENT"],
                           scopes=["APP", "REQUEST"], marks=["ctx", "maybectx"], defaults=[True], wrapped=[False, True], chain=[False],
                           apis=(False,), reopen=True, spells=1, entry=["compiled"], which=["K"]),
                thorough=dict(opens=[[2, 3, 4], [3, 4], [3, 4]], which=["K", "O"]),
                reach=("found", "missing")),
        Harness("injected", injected,
                "injected callables (sync, async): FromContext, Injected[FromContext], Maybe, defaults; value from the chain, from diwire_context or from the caller",
                quick=dict(ctxs=["none", "K=None", "O=obj"], opens=[[2, 3], [4]], scopes=[None, "REQUEST", "STEP"],
                           forms=["ctx", "ctx-default", "inj", "maybe", "maybe-default", "maybectx", "maybectx-default"], wrapped=[False], kinds=["fn"]),
                thorough=dict(ctxs=list(CTXS)[:7], wrapped=[False, True], kinds=["none", "fn", "gen"], scopes=[None, "SESSION", "REQUEST", "ACTION", "STEP"]),
                reach=("found", "missing", "absent", "no-scope")),
    ],
    outside="context values of providers are looked up from the scope the provider runs in",
)
