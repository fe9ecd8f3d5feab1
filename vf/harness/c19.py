"""C19: an injected call opens the scope it needs and always closes it."""
from __future__ import annotations

from typing import Any, Generic, TypeVar

from ..core import Harness, Property
from ..refmodel import PATHS, Dep, CleanupOracle, Handle, Matcher, Model, Node, err_kind, open_handle, register_node
from ..world import KINDS_ASYNC, Fault, World, aoutcome, make_class, make_provider, outcome, register, strict_container

LV = {"APP": 1, "SESSION": 2, "REQUEST": 3, "ACTION": 4, "STEP": 5}


def _fn(names, is_async, body):
    src = f"{'async ' if is_async else ''}def target({', '.join(names)}):\n    return {'await ' if is_async else ''}BODY({', '.join(names)})\n"
    ns = {"BODY": body}
    exec(src, ns)  # noqa: S102
    return ns["target"]




def model_open(active, level):
    """The handle a call opens below `active` (its intermediate handles are owned by it)."""
    h, owned = active, []
    for x in PATHS[(active.level, level)]:
        h = Handle(f"call.{x}", x, h)
        if x != level:
            owned.append(h)
    h.owned = owned
    h.closed = False
    return h


def graph(ctx, w, c, kinds, lifes):
    """A (APP), Q (REQUEST), N (ACTION), T (TRANSIENT at APP, needs Q)."""
    from diwire import Lifetime, Scope

    nodes = []
    kind = ctx.pick("kind", kinds)
    life = getattr(Lifetime, ctx.pick("life", lifes))
    for name, sc in (("A", Scope.APP), ("Q", Scope.REQUEST), ("N", Scope.ACTION)):
        n = Node(name, kind, life, sc)
        n.key = n.cls = make_class(name)
        nodes.append(n)
    t = Node("T", "fn", Lifetime.TRANSIENT, Scope.APP)
    t.key = t.cls = make_class("T")
    t.deps = [Dep("q", "Q", "plain")]
    nodes.append(t)
    by = {n.name: n for n in nodes}
    for n in nodes:
        register_node(w, c, n, by)
    return nodes, by


def param_ann(p, by, CK):
    from diwire import FromContext, Injected, Maybe, Provider

    base = by[p.split(":")[-1]].key if ":" in p or p in by else None
    if p == "ctx":
        return FromContext[CK]
    if p.startswith("provider:"):
        return Injected[Provider[base]]
    if p.startswith("maybe:"):
        return Injected[Maybe[base]]
    return Injected[base]


def calling(ctx, kinds, lifes, firsts, seconds, decls, autos, actives, sources, apis, bodies, fails=(None,), context=(False,), overrides=(False,), warm=(False,)):
    from diwire import Container, ResolverContext, Scope
    from diwire.exceptions import DIWireInvalidRegistrationError

    w = World(ctx)
    rc = ResolverContext()
    c = strict_container(resolver_context=rc, use_resolver_context=True)
    nodes, by = graph(ctx, w, c, kinds, lifes)
    CK = make_class("CK")
    model = Model(nodes)
    names = ["p", "q"]
    ps = [ctx.pick("p", firsts), ctx.pick("q", seconds)]
    if ps[1] == "none":
        ps, names = ps[:1], names[:1]
    node_of = lambda p: by[p.split(":")[-1]] if p != "ctx" else None  # noqa: E731
    decl = ctx.pick("declared", decls)
    auto = ctx.pick("auto_open", autos)
    required = max([1] + [model.max_required(node_of(p)) for p in ps if p != "ctx"])
    is_async = any(model.requires_async(node_of(p)) for p in ps if p != "ctx" and not p.startswith("provider")) or ctx.pick("api", apis) == "async"
    seen = []
    ov_val = object()
    boom = Fault("body")
    res = object()
    body = ctx.pick("body", bodies)
    fail = ctx.pick("fail", fails)
    armed = {"on": False}

    def run(*vals):
        seen.append((list(vals), len(w.log), None))
        for p, v in zip(ps, vals):
            if p.startswith("provider:") and v is not ov_val:
                o = outcome(v)
                seen[-1][0].append(o)
        if body == "raises":
            raise boom
        return res

    async def arun(*vals):
        return run(*vals)

    f = _fn(names, is_async, arun if is_async else run)
    f.__annotations__ = {x: param_ann(p, by, CK) for x, p in zip(names, ps)}
    kw = {} if decl == "infer" else {"scope": getattr(Scope, decl)}
    if not auto:
        kw["auto_open_scope"] = False
    d = outcome(lambda: rc.inject(**kw)(f))
    if decl != "infer" and LV[decl] < required:
        ctx.reach("rejected at decoration")
        ctx.check(d[0] == "exc" and isinstance(d[1], DIWireInvalidRegistrationError), lambda: f"declared scope {decl} for level {required}: expected a rejection, got {d!r}")
        return
    ctx.check(d[0] == "ok", lambda: f"declared scope {decl} for level {required}: {d[1]!r}")
    wrapped = d[1]
    target = required if decl == "infer" else LV[decl]
    # the active resolver
    root = c.compile()
    hs = {"root": Handle("root", 1, None, None, root)}
    hs["root"].owned, hs["root"].closed = [], False
    an = ctx.pick("active", actives)
    src = ctx.pick("source", list(sources))
    if src == "fallback" and an != "root":
        return
    if an != "root":
        open_handle(hs, an, "root", Scope, LV[an])
    active = hs[an]
    mt = Matcher(ctx, model, w)
    orc = CleanupOracle(ctx, model, mt, w)
    if ctx.pick("warm", warm):
        for n in ("A", "Q", "N"):
            if not model.errors(by[n], active, True):
                r = aoutcome(lambda: active.real.aresolve(by[n].key)) if model.requires_async(by[n]) else outcome(lambda: active.real.resolve(by[n].key))
                ctx.check(r[0] == "ok", lambda: f"warm {n}: {r!r}")
                mt.match(r[1], model.value(by[n], active), f"warm.{n}")
        orc.after_resolve("warming")
    opens = auto and target > 1 and active.level < target
    home = model_open(active, target) if opens else active
    cv = object()
    gives = ctx.pick("context", context)
    call_kw = {}
    if gives:
        call_kw["diwire_context"] = {CK: cv}
    ov = ctx.pick("override", overrides)
    if ov:
        call_kw[names[0]] = ov_val
    before = len(w.log)
    made0 = len(w.made)

    def do():
        if src == "explicit":
            return wrapped(diwire_resolver=active.real, **call_kw)
        return wrapped(**call_kw)

    async def ado():
        return await do()

    if src == "bound":
        active.real.__enter__()
    r = aoutcome(ado) if is_async else outcome(do)
    bound_after = rc._get_bound_resolver_or_none()
    if src == "bound":
        ctx.check(bound_after is active.real, "the call left another resolver bound")
        rc._pop()
    else:
        ctx.check(bound_after is None, "the call left a resolver bound")
    what = f"f({', '.join(ps)}) declared {decl}, auto_open={auto}, called in {an}"
    if gives and not opens:
        ctx.reach("unused context")
        ctx.check(r[0] == "exc" and isinstance(r[1], DIWireInvalidRegistrationError) and not seen, lambda: f"{what}: context without a new scope gave {r!r}")
        ctx.check(len(w.log) == before, lambda: f"{what}: a rejected call did {w.log[before:]}")
        return
    # injection, parameter by parameter
    expect_err = None
    vals = []
    for i, p in enumerate(ps):
        if ov and i == 0:
            vals.append(("lit", ov_val))
            continue
        if p == "ctx":
            continue
        n = node_of(p)
        if p.startswith("provider:"):
            vals.append(None)
            continue
        e = model.errors(n, home, is_async)
        if e:
            expect_err = e
            break
        vals.append(("m", n))
    if expect_err is None and any(p == "ctx" and not (ov and i == 0) for i, p in enumerate(ps)) and not (gives and opens):
        expect_err = {"notreg"}
    if expect_err is not None:
        ctx.reach("injection failed")
        ctx.check(r[0] == "exc" and err_kind(r[1]) in expect_err and not seen, lambda: f"{what}: expected {sorted(expect_err)}, got {r!r}")
        if not opens:
            return
        # whatever was acquired in the opened scope is gone
        live = [e[2] for e in w.log[before:] if e[0] == "new" and e[1] in ("Q", "N") and by[e[1]].kind != "fn" and (by[e[1]].level > active.level)]
        fins = [e[2] for e in w.log[before:] if e[0] == "fin"]
        ctx.check(len(fins) == len(live) and all(a is b for a, b in zip(fins, reversed(live))), lambda: f"{what}: injection failed; acquired {live}, cleaned {fins}")
        return
    ctx.check(len(seen) == 1, lambda: f"{what}: the callable ran {len(seen)} times: {r!r}")
    ctx.check(r == ("exc", boom) if body == "raises" else (r[0] == "ok" and r[1] is res), lambda: f"{what}: gave {r!r}")
    got, pos, _ = seen[0]
    handles = got[len(ps):]
    # order of injection: injected parameters in order, context values last
    order = [i for i, p in enumerate(ps) if p != "ctx"]
    for i in order:
        p = ps[i]
        if ov and i == 0:
            ctx.check(got[0] is ov_val, lambda: f"{what}: the override was replaced by {got[0]!r}")
            continue
        if p.startswith("provider:"):
            continue
        mt.match(got[i], model.value(node_of(p), home), f"{what}.{names[i]}")
    for i, p in enumerate(ps):
        if p == "ctx" and not (ov and i == 0):
            ctx.check(got[i] is cv, lambda: f"{what}: context value {got[i]!r}")
        if p.startswith("provider:") and not (ov and i == 0) and handles:
            o = handles.pop(0)
            e = model.errors(node_of(p), home, False)
            if e:
                ctx.check(o[0] == "exc" and err_kind(o[1]) in e, lambda: f"{what}: handle gave {o!r}, expected {e}")
            else:
                ctx.check(o[0] == "ok", lambda: f"{what}: handle gave {o!r}")
                mt.match(o[1], model.value(node_of(p), home), f"{what}.{names[i]}()")
    ctx.reach("called in the active scope" if not opens else "called in a new scope")
    # what the call opened is closed, in reverse order, after the body; nothing else is
    during = w.log[before:]
    for e in during[:pos - before]:
        ctx.check(e[0] == "new", lambda: f"{what}: a cleanup ran before the body: {e!r}")
    acquired = [e[2] for e in during if e[0] == "new" and by[e[1]].kind != "fn"]
    insts = {id(h.inst) for h in ([home] + home.owned)} if opens else set()
    stacks = []
    for h in ([home] + list(reversed(home.owned))) if opens else []:
        stacks += [o for o in reversed(acquired) if mt.of_real.get(id(o)) is not None and mt.of_real[id(o)].inst is h.inst]
    fins = [e[2] for e in during if e[0] == "fin"]
    ctx.check(len(fins) == len(stacks) and all(a is b for a, b in zip(fins, stacks)), lambda: f"{what}: cleaned up {fins}, expected {stacks}")
    if body == "raises":
        for o in stacks:
            ctx.check(any(e[0] == "throw" and e[2] is o and e[3] is boom for e in during), lambda: f"{what}: the cleanup of {o!r} did not see the error of the body")
    if stacks:
        ctx.reach("cleaned up")


def failing(ctx, stages, kinds, apis, actives):
    """A provider of a later parameter fails, or a cleanup fails: the opened scope is closed all the same."""
    from diwire import Injected, Lifetime, ResolverContext, Scope

    w = World(ctx)
    rc = ResolverContext()
    c = strict_container(resolver_context=rc, use_resolver_context=True)
    kind = ctx.pick("kind", kinds)
    is_async = kind in KINDS_ASYNC or ctx.pick("api", apis) == "async"
    where = ctx.pick("fault", stages)
    boom, berr = Fault("boom"), Fault("body")
    K = {n: make_class(n) for n in "XYZ"}

    def hook(name):
        def h(stage, args):
            if where == f"{name}.{stage}":
                raise boom
        return h

    for n in "XYZ":
        register(c, kind, make_provider(w, n, kind, K[n], hook=hook(n)), K[n], lifetime=Lifetime.SCOPED, scope=Scope.REQUEST)
    body_fails = ctx.flag("body.fails")
    ran = []

    def run(x, y):
        ran.append(len(w.log))
        z = rc.resolve(K["Z"]) if not is_async else None
        if body_fails:
            raise berr
        return "done"

    async def arun(x, y):
        ran.append(len(w.log))
        await rc.aresolve(K["Z"])
        if body_fails:
            raise berr
        return "done"

    f = _fn(["x", "y"], is_async, arun if is_async else run)
    f.__annotations__ = {"x": Injected[K["X"]], "y": Injected[K["Y"]]}
    g = rc.inject(f)
    an = ctx.pick("active", actives)
    sess = c.enter_scope(Scope.SESSION) if an == "SESSION" else c.compile()
    kw = {"diwire_resolver": sess}
    r = aoutcome(lambda: g(**kw)) if is_async else outcome(lambda: g(**kw))
    news = [e[2] for e in w.log if e[0] == "new"]
    fins = [e[2] for e in w.log if e[0] == "fin"]
    ctx.check(len(fins) == len(news) and all(a is b for a, b in zip(fins, reversed(news))), lambda: f"acquired {news}, cleaned up {fins}")
    ctx.check(rc._get_bound_resolver_or_none() is None, "a resolver stayed bound")
    if where and not where.endswith(".exit"):
        ctx.check(r == ("exc", boom), lambda: f"fault in {where}: gave {r!r}")
        ctx.check(bool(ran) == where.startswith("Z"), "the callable ran although an injected value failed" if ran else "the callable did not run")
        ctx.reach("injection failed")
    elif body_fails:
        ctx.check(r == ("exc", berr), lambda: f"gave {r!r}, the body raised {berr!r}")
        ctx.reach("body failed")
    elif where:
        ctx.check(r == ("exc", boom), lambda: f"fault in {where}: gave {r!r}")
        ctx.reach("cleanup failed")
    else:
        ctx.check(r == ("ok", "done"), lambda: f"gave {r!r}")


def nested(ctx, outers, inners, actives, apis):
    """An injected callable calling another: the inner one reuses the scope of the outer one if deep enough."""
    from diwire import Injected, Lifetime, ResolverContext, Scope

    w = World(ctx)
    rc = ResolverContext()
    c = strict_container(resolver_context=rc, use_resolver_context=True)
    K = {}
    for n, s in (("Q", Scope.REQUEST), ("N", Scope.ACTION)):
        K[n] = make_class(n)
        register(c, "gen", make_provider(w, n, "gen", K[n]), K[n], lifetime=Lifetime.SCOPED, scope=s)
    is_async = ctx.pick("api", apis) == "async"
    o, i = ctx.pick("outer", outers), ctx.pick("inner", inners)
    got = {"inner": []}
    L = {"Q": 3, "N": 4}

    def inner(v):
        got["inner"].append(v)
        return v

    async def ainner(v):
        return inner(v)

    fi = _fn(["v"], is_async, ainner if is_async else inner)
    fi.__annotations__ = {"v": Injected[K[i]]}
    gi = rc.inject(fi)

    def outer(v):
        got["outer"] = v
        gi()
        got["mid"] = list(w.log)
        gi()
        got["end"] = list(w.log)

    async def aouter(v):
        got["outer"] = v
        await gi()
        got["mid"] = list(w.log)
        await gi()
        got["end"] = list(w.log)

    fo = _fn(["v"], is_async, aouter if is_async else outer)
    fo.__annotations__ = {"v": Injected[K[o]]}
    go = rc.inject(fo)
    an = ctx.pick("active", actives)
    if an == "none":
        r = aoutcome(go) if is_async else outcome(go)
    elif is_async:
        async def run():
            async with c.enter_scope(getattr(Scope, an)):
                return await go()
        r = aoutcome(run)
    else:
        def run():
            with c.enter_scope(getattr(Scope, an)):
                return go()
        r = outcome(run)
    ctx.check(r[0] == "ok", lambda: f"gave {r!r}")
    base = max(LV.get(an, 1), L[o])
    fins = lambda log: [e[2] for e in log if e[0] == "fin"]  # noqa: E731
    a, b = got["inner"]
    if L[i] <= base:
        ctx.check(a is b, "the inner calls did not share the scope of the outer call")
        if o == i:
            ctx.check(a is got["outer"], "the inner call did not use the scope of the outer call")
        ctx.check(not fins(got["end"]), lambda: f"an inner call closed {fins(got['end'])}")
        ctx.reach("reused")
    else:
        ctx.check(a is not b and fins(got["mid"]) == [a] and fins(got["end"]) == [a, b], lambda: f"inner scopes: {fins(got['end'])}, values {a!r} {b!r}")
        ctx.reach("opened")
    made = [e[2] for e in w.log if e[0] == "new"]
    ctx.check(sorted(map(id, fins(w.log))) == sorted(map(id, made)), lambda: f"made {made}, cleaned {fins(w.log)}")


T = TypeVar("T")


def contracts(ctx, decls, autos, nops, ops):
    """Registrations after decoration: a declared scope that becomes too shallow is refused; an inferred one follows."""
    from diwire import Injected, Lifetime, Provider, ResolverContext, Scope
    from diwire.exceptions import DIWireInvalidRegistrationError

    w = World(ctx)
    rc = ResolverContext()
    c = strict_container(resolver_context=rc, use_resolver_context=True)
    X, Y = make_class("X"), make_class("Y")
    decl = ctx.pick("declared", decls)
    auto = ctx.pick("auto_open", autos)
    scopes = {"APP": Scope.APP, "REQUEST": Scope.REQUEST, "ACTION": Scope.ACTION}
    state = {}  # X: (scope, depends on Y), Y: scope

    def level(st):
        if "X" not in st:
            return 1
        s, dep = st["X"]
        return max(LV[s], LV[st["Y"]] if dep and "Y" in st else 1)

    def reg(op, label):
        k, s = op.split("@")
        from ..world import param
        if k == "Y":
            register(c, "gen", make_provider(w, label, "gen", Y), Y, lifetime=Lifetime.SCOPED, scope=scopes[s])
        elif k == "X":
            register(c, "gen", make_provider(w, label, "gen", X), X, lifetime=Lifetime.SCOPED, scope=scopes[s])
        elif k == "X(Y)":
            register(c, "fn", make_provider(w, label, "fn", X, [param("y", Y)]), X, lifetime=Lifetime.TRANSIENT, scope=scopes[s])
        elif k == "X(P)":
            register(c, "fn", make_provider(w, label, "fn", X, [param("y", Provider[Y])]), X, lifetime=Lifetime.TRANSIENT, scope=scopes[s])
        else:
            def deco(inner, y):
                return inner
            deco.__annotations__ = {"inner": X, "y": Y, "return": X}
            c.decorate(provides=X, decorator=deco, inner_parameter="inner")

    def apply(st, op):
        st = dict(st)
        k, s = op.split("@")
        if k == "Y":
            st["Y"] = s
        elif k == "X":
            st["X"] = (s, st.get("deco", False))
        elif k in ("X(Y)", "X(P)"):
            st["X"] = (s, True)
        else:
            st["deco"] = True
            if "X" in st:
                st["X"] = (st["X"][0], True)
        return st

    got = []
    src_seen = []

    def f(x):
        got.append(x)
        src_seen.append(rc)

    f.__annotations__ = {"x": Injected[X]}
    when = ctx.pick("decorate.at", list(range(nops + 1)))
    wrapped = None
    label = {}
    for i in range(nops + 1):
        if i == when:
            kw = {} if decl == "infer" else {"scope": scopes[decl]}
            if not auto:
                kw["auto_open_scope"] = False
            d = outcome(lambda: rc.inject(**kw)(f))
            if decl != "infer" and LV[decl] < level(state):
                ctx.check(d[0] == "exc" and isinstance(d[1], DIWireInvalidRegistrationError), lambda: f"decoration with {decl} for {state}: {d!r}")
                ctx.reach("rejected at decoration")
                return
            ctx.check(d[0] == "ok", lambda: f"decoration with {decl} for {state}: {d!r}")
            wrapped = d[1]
        if i == nops:
            break
        op = ctx.pick(f"op{i}", ops)
        new = apply(state, op)
        r = outcome(lambda: reg(op, f"{op}#{i}"))
        if wrapped is not None and decl != "infer" and LV[decl] < level(new):
            ctx.check(r[0] == "exc" and isinstance(r[1], DIWireInvalidRegistrationError), lambda: f"{op} on {state} breaks the declared scope {decl}, got {r!r}")
            ctx.reach("rejected at registration")
        else:
            ctx.check(r[0] == "ok", lambda: f"{op} on {state}: {r!r}")
            state = new
            label[op.split("@")[0][0]] = f"{op}#{i}"
    if "X" not in state or (state["X"][1] and "Y" not in state) or ("deco" in state):
        return
    if state["X"][0] != "APP" and state["X"][1] and LV[state["X"][0]] < LV[state["Y"]] and "X(P)" in label["X"]:
        return
    if "X(P)" in label.get("X", "") and LV[state["Y"]] > LV[state["X"][0]]:
        return  # a handle for a deeper scope is refused when the graph is compiled
    need = level(state)
    target = need if decl == "infer" else LV[decl]
    r = outcome(wrapped)
    if not auto and need > 1:
        ctx.check(r[0] == "exc" and err_kind(r[1]) == "scope", lambda: f"call of {state} without opening a scope: {r!r}")
        return
    ctx.check(r[0] == "ok", lambda: f"call for {state} declared {decl}: {r!r}")
    ctx.check(len(got) == 1 and got[0].node == label["X"], lambda: f"call for {state} received {got}, expected the one of {label['X']}")
    made = [e[2] for e in w.log if e[0] == "new" and not e[1].startswith("X(")]
    fins = [e[2] for e in w.log if e[0] == "fin"]
    short = [o for o in made if LV[o.node.split("@")[1].split("#")[0]] > 1]
    ctx.check(fins == list(reversed(short)), lambda: f"call for {state}: acquired {made}, cleaned {fins}")
    ctx.reach("called")


P1 = ["A", "Q", "N", "T"]
B = dict(kinds=["gen"], lifes=["SCOPED"], firsts=P1, seconds=P1 + ["none"], decls=["infer", "APP", "SESSION", "REQUEST", "ACTION", "STEP"], autos=[True, False], actives=["root", "SESSION", "REQUEST", "ACTION", "STEP"],
         sources=("explicit",), apis=("sync",), bodies=["returns"])
PROPERTY = Property(
    "C19",
    [
        Harness("target", calling, "two injected parameters of 3 scopes (direct or through a transient), 6 declared scopes, auto_open on/off, called from 5 active scopes",
                quick={**B, "lifes": ["SCOPED", "TRANSIENT"], "bodies": ["returns", "raises"], "apis": ("sync", "async")}, thorough={**B, "lifes": ["SCOPED", "TRANSIENT"], "bodies": ["returns", "raises"], "apis": ("sync", "async"), "warm": (False, True)},
                reach=("rejected at decoration", "injection failed", "called in the active scope", "called in a new scope", "cleaned up")),
        Harness("uses", calling, "explicit, bound and fallback resolvers, sync and async functions, transient and async resources, warm caches, raising bodies",
                quick={**B, "firsts": ["Q", "N"], "seconds": ["Q", "none"], "kinds": ["gen", "acm"], "lifes": ["SCOPED", "TRANSIENT"], "decls": ["infer", "ACTION"], "autos": [True], "actives": ["root", "REQUEST", "ACTION"],
                       "sources": ("explicit", "bound", "fallback"), "apis": ("sync", "async"), "bodies": ["returns", "raises"], "warm": (False, True)},
                thorough={**B, "kinds": ["gen", "cm", "agen", "acm"], "lifes": ["SCOPED", "TRANSIENT"], "decls": ["infer", "ACTION"], "autos": [True], "actives": ["root", "REQUEST", "ACTION"],
                          "sources": ("explicit", "bound", "fallback"), "apis": ("sync", "async"), "bodies": ["returns", "raises"], "warm": (False, True)},
                reach=("called in the active scope", "called in a new scope", "cleaned up")),
        Harness("markers", calling, "Provider and Maybe parameters, context values given with the call, parameters passed by the caller",
                quick={**B, "firsts": ["Q", "provider:Q", "provider:N", "maybe:Q", "maybe:N", "ctx"], "seconds": ["A", "Q", "provider:N", "ctx", "none"], "decls": ["infer", "REQUEST", "ACTION"], "actives": ["root", "REQUEST", "ACTION"],
                       "context": (False, True), "overrides": (False, True)},
                thorough={**B, "firsts": ["Q", "provider:Q", "provider:N", "maybe:Q", "maybe:N", "ctx"], "seconds": ["A", "Q", "provider:N", "ctx", "none"], "context": (False, True), "overrides": (False, True), "apis": ("sync", "async")},
                reach=("unused context", "injection failed", "called in the active scope", "called in a new scope")),
        Harness("faults", failing, "a provider of either parameter or of a value resolved in the body fails, or any cleanup fails, body returning or raising",
                quick=dict(stages=[None] + [f"{n}.{s}" for n in "XYZ" for s in ("call", "exit")], kinds=["gen", "cm", "agen", "acm"], apis=("sync", "async"), actives=["root", "SESSION"]),
                reach=("injection failed", "body failed", "cleanup failed")),
        Harness("nested", nested, "injected callables calling injected callables, from 4 active scopes",
                quick=dict(outers=["Q", "N"], inners=["Q", "N"], actives=["none", "SESSION", "REQUEST", "ACTION"], apis=("sync", "async")),
                reach=("reused", "opened")),
        Harness("contracts", contracts, "3 registrations (X, Y, X needing Y or Provider[Y], a decorator needing Y, at 3 scopes) before or after decoration",
                quick=dict(decls=["infer", "APP", "REQUEST"], autos=[True], nops=3, ops=["X@APP", "X@ACTION", "Y@APP", "Y@REQUEST", "Y@ACTION", "X(Y)@APP", "X(P)@APP", "deco@-"]),
                thorough=dict(decls=["infer", "APP", "REQUEST"], autos=[True, False], nops=4, ops=["X@APP", "X@REQUEST", "X@ACTION", "Y@APP", "Y@REQUEST", "Y@ACTION", "X(Y)@APP", "X(Y)@REQUEST", "X(P)@APP", "deco@-"]),
                reach=("rejected at decoration", "rejected at registration", "called")),
    ],
    assumptions=[],
    outside=["generator functions (the scope closes before their body runs)"],
)
