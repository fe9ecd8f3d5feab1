"""C18: injected callables keep the caller's arguments and inject only what is missing."""
from __future__ import annotations

import functools
import inspect
from typing import Annotated, Any

from ..core import Harness, Property
from ..world import KO, PK, Fault, World, aoutcome, make_class, make_provider, outcome, register, strict_container

PO = inspect.Parameter.POSITIONAL_ONLY
E = inspect.Parameter.empty


class V:
    """An argument or default value."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


class Falsy(V):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


def build(params, is_async, rec, result):
    """A real function with these (name, kind, default) parameters; params may end in *args / **kw."""
    out, po, ko = [], False, False
    for name, kind, default in params:
        if kind is not PO and po:
            out.append("/")
            po = False
        if kind is PO:
            po = True
        if kind is inspect.Parameter.VAR_POSITIONAL:
            out.append("*" + name)
            ko = True
            continue
        if kind is inspect.Parameter.VAR_KEYWORD:
            out.append("**" + name)
            continue
        if kind is KO and not ko:
            out.append("*")
            ko = True
        out.append(name if default is E else f"{name}=DEF[{name!r}]")
    if po:
        out.append("/")
    src = f"{'async ' if is_async else ''}def target({', '.join(out)}):\n    'doc'\n    REC.append(dict(locals()))\n    return RESULT()\n"
    ns = {"DEF": {n: d for n, _, d in params}, "REC": rec, "RESULT": result}
    exec(src, ns)  # noqa: S102
    return ns["target"]


ROLES = {}


def setup(c, rc, w):
    from diwire import AsyncProvider, Component, FromContext, Injected, Lifetime, Maybe, Provider

    R, U, CK = make_class("R"), make_class("U"), make_class("CK")
    RX = Annotated[R, Component("x")]
    register(c, "fn", make_provider(w, "R", "fn", R), R, lifetime=Lifetime.SCOPED)
    register(c, "fn", make_provider(w, "RX", "fn", R), RX, lifetime=Lifetime.SCOPED)
    r, rx = c.resolve(R), c.resolve(RX)
    roles = {
        "plain": (int, None),
        "injected": (Injected[R], ("value", r)),
        "annotated": (Annotated[Injected[R], "meta"], ("value", r)),
        "component": (Injected[RX], ("value", rx)),
        "provider": (Injected[Provider[R]], ("call", r)),
        "aprovider": (Injected[AsyncProvider[R]], ("acall", r)),
        "maybe": (Injected[Maybe[R]], ("value", r)),
        "maybe-missing": (Injected[Maybe[U]], ("missing", None)),
        "context": (FromContext[CK], ("ctx", None)),
        "context-injected": (Injected[FromContext[CK]], ("ctx", None)),
        "context-maybe": (Maybe[FromContext[CK]], ("ctx?", None)),
    }
    return roles, CK


def calling(ctx, n, kinds, roles, defaults, forms, varargs, npos, kwextra=(False,), apis=("sync",), sources=("explicit",), values=("plain",), twice=(False,)):
    from diwire import ResolverContext, Scope

    w = World(ctx)
    rc = ResolverContext()
    c = strict_container(resolver_context=rc, use_resolver_context=True)
    ann, CK = setup(c, rc, w)
    names = ["a", "b", "d"][:n]
    val = {"plain": V, "falsy": Falsy}[ctx.pick("values", values)]
    params, role = [], {}
    rank = {PO: 0, PK: 1, KO: 2}
    lastk, seen_default = PO, False
    for x in names:
        kind = ctx.pick(f"{x}.kind", [k for k in kinds if rank[k] >= rank[lastk]])
        lastk = kind
        role[x] = ctx.pick(f"{x}.role", roles)
        d = E
        if ctx.pick(f"{x}.default", defaults):
            d = val(f"default {x}")
        elif kind is not KO and seen_default:
            return  # not a Python signature
        if kind is not KO and d is not E:
            seen_default = True
        params.append((x, kind, d))
    va, vk = ctx.pick("var", varargs)
    if va:
        params.insert(next((i for i, p in enumerate(params) if p[1] is KO), len(params)), ("rest", inspect.Parameter.VAR_POSITIONAL, E))
    if vk:
        params.append(("kw", inspect.Parameter.VAR_KEYWORD, E))
    if all(role[x] == "plain" for x in names):
        return
    is_async = ctx.pick("api", apis) == "async"
    rec = []
    res = V("result")
    boom = Fault("body")
    fails = ctx.flag("body.raises") if len(twice) > 1 else False

    def result():
        if fails:
            raise boom
        return res

    target = build(params, is_async, rec, result)
    target.__annotations__ = {x: ann[role[x]][0] for x in names} | {"return": V}
    form = ctx.pick("form", forms)
    me = V("self")
    orig = target
    if form == "function":
        wrapped = rc.inject(target)
    elif form == "decorator":
        wrapped = rc.inject(scope=Scope.REQUEST)(target)
    elif form == "auto_open_scope=False":
        wrapped = rc.inject(auto_open_scope=False)(target)
    elif form == "twice":
        @functools.wraps(target)
        def outer(*a, **k):
            return target(*a, **k)
        async def aouter(*a, **k):
            return await target(*a, **k)
        wrapped = rc.inject(functools.wraps(target)(aouter) if is_async else outer)
    sig = inspect.signature(orig)
    psig = inspect.signature(wrapped)
    want = [p for p in sig.parameters.values() if role.get(p.name, "plain") == "plain"]
    ctx.check(list(psig.parameters.values()) == want and psig.return_annotation is sig.return_annotation, lambda: f"the visible signature of {sig} is {psig}")
    ctx.check(wrapped.__name__ == "target" and wrapped.__doc__ == "doc" and inspect.iscoroutinefunction(wrapped) == is_async, "the wrapper lost the name, doc or async-ness")
    # the caller's arguments
    k = ctx.pick("positional", list(npos))
    args = tuple(val(f"pos{i}") for i in range(k))
    kws = {x: val(f"kw {x}") for x in names if ctx.flag(f"kw.{x}")}
    if ctx.pick("kw.extra", kwextra):
        kws["zz"] = val("kw zz")
    src = ctx.pick("source", list(sources))
    cv = val("context value")
    has_ctx = any(role[x].startswith("context") for x in names)
    gives_ctx = ctx.flag("context.given") if has_ctx else False
    sc = c.compile().enter_scope(Scope.REQUEST, context={CK: cv} if gives_ctx else None)
    # expectation: Python's own binding of the caller's arguments, then injection, then defaults
    try:
        b = sig.bind_partial(*args, **kws)
        bad = False
    except TypeError:
        bad = True
    exp = {}
    if not bad:
        for p in sig.parameters.values():
            x = p.name
            if x in b.arguments:
                exp[x] = ("value", b.arguments[x])
            elif p.kind is p.VAR_POSITIONAL or p.kind is p.VAR_KEYWORD:
                exp[x] = ("value", () if p.kind is p.VAR_POSITIONAL else {})
            elif role[x] != "plain":
                kd, v = ann[role[x]][1]
                if kd == "missing" or (kd == "ctx?" and not gives_ctx):
                    exp[x] = ("value", None if p.default is E else p.default)
                elif kd.startswith("ctx"):
                    exp[x] = ("value", cv) if gives_ctx else ("no context", None)
                else:
                    exp[x] = (kd, v)
            elif p.default is not E:
                exp[x] = ("value", p.default)
            else:
                bad = True
    for turn in range(2 if ctx.pick("twice", twice) else 1):
        del rec[:]
        call_kw = dict(kws)

        def call():
            if src == "explicit":
                return wrapped(*args, diwire_resolver=sc, **call_kw)
            if src == "bound":
                with sc:
                    return wrapped(*args, **call_kw)
            return wrapped(*args, **call_kw)

        async def acall():
            if src == "explicit":
                return await wrapped(*args, diwire_resolver=sc, **call_kw)
            if src == "bound":
                async with sc:
                    return await wrapped(*args, **call_kw)
            return await wrapped(*args, **call_kw)

        r = aoutcome(acall) if is_async else outcome(call)
        desc = lambda: f"{form} target{sig} called with {args} {kws}"  # noqa: E731
        if bad:
            ctx.reach("invalid call")
            ctx.check(r[0] == "exc" and not rec, lambda: f"{desc()}: expected a TypeError, got {r!r}")
            if not any(kd == "no context" for kd, _ in exp.values()):
                ctx.check(isinstance(r[1], TypeError), lambda: f"{desc()}: expected a TypeError, got {r!r}")
            return
        if any(kd == "no context" for kd, _ in exp.values()):
            from diwire.exceptions import DIWireDependencyNotRegisteredError
            ctx.check(r[0] == "exc" and isinstance(r[1], DIWireDependencyNotRegisteredError) and not rec, lambda: f"{desc()}: expected a missing context value, got {r!r}")
            ctx.reach("missing context")
            return
        ctx.check(len(rec) == 1, lambda: f"{desc()}: the callable ran {len(rec)} times: {r!r}")
        ctx.check(r == ("exc", boom) if fails else (r[0] == "ok" and r[1] is res), lambda: f"{desc()}: gave {r!r}")
        got = rec[0]
        ctx.check(set(got) == set(exp), lambda: f"{desc()}: received {got}")
        for x, (kd, v) in exp.items():
            g = got[x]
            if kd == "value":
                if x == "rest":
                    ok = len(g) == len(v) and all(p is q for p, q in zip(g, v))
                elif x == "kw":
                    ok = set(g) == set(v) and all(g[q] is v[q] for q in v)
                else:
                    ok = g is v
            elif kd == "call":
                o = outcome(g)
                ok = o[0] == "ok" and o[1] is v
            else:
                o = aoutcome(g)
                ok = o[0] == "ok" and o[1] is v
            ctx.check(ok, lambda: f"{desc()}: parameter {x} received {g!r}, expected {kd} {v!r}")
        if src == "bound":
            break
    ctx.reach("called")
    ctx.check(call_kw == kws if values == ("plain",) else True, "the caller's keywords were changed")


def shapes(ctx, shapes, apis, first):
    """Methods, static and class methods, callable objects, partials."""
    from diwire import Injected, ResolverContext

    w = World(ctx)
    rc = ResolverContext()
    c = strict_container(resolver_context=rc, use_resolver_context=True)
    ann, CK = setup(c, rc, w)
    r = ann["injected"][1][1]
    is_async = ctx.pick("api", apis) == "async"
    rec = []
    res = V("result")
    order = ctx.pick("order", first)
    P = [("a", PK, E), ("r", PK, E)] if order == "plain first" else [("r", PK, E), ("a", PK, E)]
    self_first = ctx.pick("shape", shapes)
    base = build(([("self", PK, E)] if self_first in ("method", "bound method", "classmethod", "object") else []) + P, is_async, rec, lambda: res)
    base.__annotations__ = {"r": ann["injected"][0]}
    recv = None
    if self_first == "method":
        K = type("K", (), {"m": rc.inject(base)})
        recv = K()
        f = recv.m
    elif self_first == "bound method":
        K = type("K", (), {"m": base})
        recv = K()
        f = rc.inject(recv.m)
    elif self_first == "classmethod":
        K = type("K", (), {"m": classmethod(rc.inject(base))})
        recv = K
        f = K.m if ctx.flag("via instance") else K().m
    elif self_first == "staticmethod":
        K = type("K", (), {"m": staticmethod(rc.inject(base))})
        f = K.m if ctx.flag("via instance") else K().m
    elif self_first == "object":
        K = type("K", (), {"__call__": base})
        recv = K()
        f = rc.inject(recv.__call__)
    elif self_first == "partial":
        pre = V("pre")
        f = functools.partial(rc.inject(base), a=pre)
    a = V("a")
    how = ctx.pick("call", ["keyword", "positional", "override"])
    if self_first == "partial":
        kw = {} if how != "override" else {"r": V("r")}
        args = ()
        want_a = pre
    else:
        want_a = a
        args, kw = ((a,), {}) if how == "positional" and order == "plain first" else ((), {"a": a})
        if how == "override":
            kw["r"] = V("r")
    out = aoutcome(lambda: f(*args, **kw)) if is_async else outcome(lambda: f(*args, **kw))
    ctx.check(out[0] == "ok" and out[1] is res, lambda: f"{self_first} called with {args} {kw} gave {out!r}")
    got = rec[0]
    ctx.check(got["a"] is want_a and got["r"] is kw.get("r", r) and (recv is None or got["self"] is recv), lambda: f"{self_first} received {got}")
    ps = inspect.signature(f)
    ctx.check("r" not in ps.parameters and "self" not in ps.parameters, lambda: f"{self_first}: visible signature {ps}")
    ctx.reach("called")


ALL = ["plain", "injected", "annotated", "component", "provider", "aprovider", "maybe", "maybe-missing", "context", "context-injected", "context-maybe"]
NOVAR = [(False, False)]
PROPERTY = Property(
    "C18",
    [
        Harness("binding", calling, "3 parameters of every kind, plain or injected, with or without defaults; 0-2 positional arguments, any subset by keyword",
                quick=dict(n=3, kinds=[PO, PK, KO], roles=["plain", "injected"], defaults=[False, True], forms=["function"], varargs=NOVAR, npos=range(3)),
                thorough=dict(n=3, kinds=[PO, PK, KO], roles=["plain", "injected", "maybe-missing"], defaults=[False, True], forms=["function", "decorator"], varargs=NOVAR, npos=range(4)),
                reach=("called", "invalid call")),
        Harness("variadic", calling, "2 parameters next to *args and **kwargs, 0-4 positional arguments, keywords including unknown and positional-only names",
                quick=dict(n=2, kinds=[PO, PK, KO], roles=["plain", "injected"], defaults=[False, True], forms=["function"], varargs=[(True, False), (False, True), (True, True)], npos=range(4), kwextra=[False, True]),
                thorough=dict(n=3, kinds=[PO, PK, KO], roles=["plain", "injected"], defaults=[False, True], forms=["function"], varargs=[(True, False), (False, True), (True, True)], npos=range(5), kwextra=[False, True]),
                reach=("called", "invalid call")),
        Harness("roles", calling, "11 spellings and markers of injected parameters, sync and async functions, context given or not, falsy values",
                quick=dict(n=2, kinds=[PK, KO], roles=ALL, defaults=[False, True], forms=["function"], varargs=NOVAR, npos=range(2), apis=("sync", "async"), values=("falsy",)),
                thorough=dict(n=2, kinds=[PO, PK, KO], roles=ALL, defaults=[False, True], forms=["function", "decorator"], varargs=[(False, False), (True, True)], npos=range(3), apis=("sync", "async"), values=("plain", "falsy")),
                reach=("called", "missing context")),
        Harness("repeat", calling, "explicit, bound and fallback resolvers; 4 decorator forms; two calls in a row; bodies that raise",
                quick=dict(n=2, kinds=[PK], roles=["plain", "injected"], defaults=[False], forms=["function", "decorator", "auto_open_scope=False", "twice"], varargs=NOVAR, npos=range(2),
                           apis=("sync", "async"), sources=("explicit", "bound", "fallback"), twice=(False, True)),
                thorough=dict(n=2, kinds=[PK, KO], roles=["plain", "injected", "provider"], defaults=[False, True], forms=["function", "decorator", "auto_open_scope=False", "twice"], varargs=NOVAR, npos=range(2),
                              apis=("sync", "async"), sources=("explicit", "bound", "fallback"), twice=(False, True)),
                reach=("called",)),
        Harness("shapes", shapes, "methods, bound methods, class and static methods, callable objects, partials; sync and async",
                quick=dict(shapes=["method", "bound method", "classmethod", "staticmethod", "object", "partial"], apis=("sync", "async"), first=["plain first", "injected first"]),
                reach=("called",)),
    ],
    assumptions=["the oracle for Python's own argument binding is inspect.Signature.bind_partial on the original signature"],
    outside=["Injected on *args or **kwargs", "generator functions (their body runs after the call returns)", "annotations that cannot be evaluated (nothing is injected)"],
)
