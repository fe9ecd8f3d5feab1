"""C16: open-generic values obey the same lifetime, scope and cleanup rules."""
from __future__ import annotations

import inspect
from types import new_class
from typing import Annotated, Any, Generic, TypeVar

from ..core import Harness, Property
from ..refmodel import CleanupOracle, Dep, Handle, Matcher, MHandle, Model, Node, do_resolve, err_kind, open_handle, register_node
from ..world import KINDS_ASYNC, Fault, Obj, World, aoutcome, make_provider, outcome, param, register, strict_container
from .c04 import TREES

T = TypeVar("T")
ARGS = {"int": int, "str": str}


class Graph:
    """X (ordinary), Q[T] (open, may depend on X), O[T] (open, may depend on X, Q[T], Q[int], ... through a marker), Z (ordinary)."""

    def __init__(self, ctx, w, c, xk, qk, ok, lifes, oscopes, xscopes, qdeps, odeps, marks, locks, order, comps=(None,), hook=None):
        from diwire import All, AsyncProvider, Component, Lifetime, LockMode, Maybe, Provider, Scope

        L = [getattr(Lifetime, x) for x in lifes]
        S = lambda xs: [getattr(Scope, x) for x in xs]  # noqa: E731
        lock = {"auto": "auto", "none": LockMode.NONE, "thread": LockMode.THREAD, "async": LockMode.ASYNC}[ctx.pick("lock", locks)]
        self.Q = new_class("Q", (Obj, Generic[T]))
        self.O = new_class("O", (Obj, Generic[T]))
        qdep = ctx.pick("Q.dep", qdeps)
        odep = ctx.pick("O.dep", odeps)
        mark = ctx.pick("O.mark", marks) if odep != "none" else "plain"
        comp = ctx.pick("O.component", comps)
        use_q = odep in ("Q", "Qint") or qdeps != ["none"] or len(qk) > 1
        x = Node("X", ctx.pick("X.kind", xk), ctx.pick("X.life", L), ctx.pick("X.scope", S(xscopes)), lock=lock)
        from ..world import make_class
        x.key = x.cls = make_class("X")
        nodes = [x]
        fams = []
        if use_q:
            fams.append(("Q", ctx.pick("Q.kind", qk), ctx.pick("Q.life", L), ctx.pick("Q.scope", S(oscopes)), qdep, "plain", None))
        fams.append(("O", ctx.pick("O.kind", ok), ctx.pick("O.life", L), ctx.pick("O.scope", S(oscopes)), odep, mark, comp))
        todo = []
        for name, kind, life, scope, dep, mk, cm in fams:
            cls = {"Q": self.Q, "O": self.O}[name]
            for a, t in ARGS.items():
                n = Node(f"{name}[{a}]", kind, life, scope, lock=lock)
                n.key = Annotated[cls[t], Component(cm)] if cm else cls[t]
                n.cls = cls
                if dep != "none":
                    target = {"X": "X", "Q": f"Q[{a}]", "Qint": "Q[int]"}[dep]
                    n.deps = [Dep("d", target, mk)]
                nodes.append(n)
            params = [param("t", type[T])]
            if dep != "none":
                ann = {"X": x.key, "Q": self.Q[T], "Qint": self.Q[int]}[dep]
                ann = {"plain": lambda: ann, "maybe": lambda: Maybe[ann], "provider": lambda: Provider[ann], "aprovider": lambda: AsyncProvider[ann]}[mk]()
                params.append(param("d", ann))
            prov = make_provider(w, lambda args, name=name: f"{name}[{args['t'].__name__}]", kind, cls, params, hook=hook)
            kw = dict(component=cm) if cm else {}
            todo.append(lambda kind=kind, prov=prov, cls=cls, kw=kw, life=life, scope=scope: register(c, kind, prov, cls[T], lifetime=life, scope=scope, lock_mode=lock, **kw))
        byname = {n.name: n for n in nodes}
        todo.insert(0, lambda: register_node(w, c, x, byname))
        if ctx.pick("order", order) == "late":
            todo.reverse()
        for f in todo:
            f()
        self.nodes = nodes
        self.model = Model(nodes)
        self.mark = mark


def _handles(ctx, c, tree, roots):
    from diwire import Scope

    root = c.compile() if ctx.pick("root", roots) == "compiled" else c
    hs = {"root": Handle("root", 1, None, None, root)}
    hs["root"].owned, hs["root"].closed = [], False
    for name, parent, level in TREES[tree]:
        open_handle(hs, name, parent, Scope, level)
    return hs


def known(model, n, r):
    """The recorded finding: a TRANSIENT open provider needing a deeper scope than its own is run at its own scope's handle."""
    from diwire import Lifetime

    todo, seen = [n], []
    while todo:
        k = todo.pop()
        seen.append(k)
        todo += [model.nodes[d.target] for d in k.deps]
    if r[0] == "exc" and err_kind(r[1]) == "scope" and any(k.life is Lifetime.TRANSIENT and k.name[-1] == "]" and model.max_required(k) > k.level for k in seen):
        return "[transient open provider needs a deeper scope] "
    return ""


def resolving(ctx, xk, qk, ok, lifes, oscopes, xscopes, qdeps, odeps, marks, trees, nops, order=("early",), locks=("auto",), roots=("container",), comps=(None,), keys=None):
    """Lifetimes, owners, mismatches, async errors; histories of resolves from any handle."""
    w = World(ctx)
    c = strict_container()
    g = Graph(ctx, w, c, xk, qk, ok, lifes, oscopes, xscopes, qdeps, odeps, marks, list(locks), list(order), comps)
    model = g.model
    hs = _handles(ctx, c, ctx.pick("tree", trees), list(roots))
    mt = Matcher(ctx, model, w)
    tops = [n for n in g.nodes if keys is None or n.name in keys]
    live = [h for h in hs.values()]
    for i in range(nops):
        n = ctx.pick(f"op{i}", tops)
        h = ctx.pick(f"op{i}.at", live)
        asy = ctx.pick(f"op{i}.api", [False, True])
        errs = model.errors(n, h, asy)
        if not asy and model.cached(n, h) is not None:
            errs.discard("async")
            if model.requires_async(n):
                continue  # a cached async value read synchronously (C06 leaves it open)
        pos = len(w.made)
        r = do_resolve(h.real, n.key, asy)
        if errs:
            ctx.reach("mismatch" if "scope" in errs else "async")
            ctx.check(r[0] == "exc" and err_kind(r[1]) in errs, lambda: f"resolving {n.name} from {h.name} ({'async' if asy else 'sync'}): expected {sorted(errs)}, got {r!r}")
            ctx.check(not any(o.node == n.name for o in w.made[pos:]), lambda: f"{n.name} was built although it must fail")
            # dependencies acquired before the failure are not predicted: stop here
            return
        ctx.check(r[0] == "ok", lambda: known(model, n, r) + f"resolving {n.name} from {h.name} ({'async' if asy else 'sync'}) failed: {r[1]!r}")
        ctx.reach("resolved")
        m = model.value(n, h)
        mt.match(r[1], m, f"{h.name}.{n.name}")
        if g.mark in ("provider", "aprovider") and n.name.startswith("O"):
            mh = m.args["d"]
            t = mh.target
            if model.errors(t, mh.at, mh.is_async):
                continue
            if not mh.is_async and model.requires_async(t):
                continue
            fn = r[1].args["d"]
            v = aoutcome(fn) if mh.is_async else outcome(fn)
            ctx.check(v[0] == "ok", lambda: known(model, t, v) + f"calling the {g.mark} of {n.name} from {h.name} failed: {v[1]!r}")
            mt.match(v[1], model.value(t, mh.at), f"{h.name}.{n.name}.d()")
            ctx.reach("handle")
    mt.counts()


def cleaning(ctx, xk, qk, ok, lifes, oscopes, xscopes, qdeps, odeps, trees, nops, closers, roots=("container",), locks=("auto",), sweep=True):
    from diwire import Scope

    w = World(ctx)
    c = strict_container()
    g = Graph(ctx, w, c, xk, qk, ok, lifes, oscopes, xscopes, qdeps, odeps, ["plain"], list(locks), ["early"])
    model, nodes = g.model, g.nodes
    hs = _handles(ctx, c, ctx.pick("tree", trees), list(roots))
    is_async = any(model.requires_async(n) for n in nodes)
    mt = Matcher(ctx, model, w)
    orc = CleanupOracle(ctx, model, mt, w)
    closer = ctx.pick("closer", closers) if not is_async else "aclose"

    def usable(h):
        return all(not x.closed for x in h.chain())

    def resolve(n, h):
        if not usable(h) or model.errors(n, h, True):
            return
        r = do_resolve(h.real, n.key, is_async)
        ctx.check(r[0] == "ok", lambda: known(model, n, r) + f"resolve {n.name} from {h.name} failed: {r[1]!r}")
        mt.match(r[1], model.value(n, h), f"{h.name}.{n.name}")
        orc.after_resolve(f"resolving {n.name} from {h.name}")

    def close(h):
        if h.closed:
            return
        want = orc.expect_close(h)
        if want:
            ctx.reach("cleanup")
        f = {"close": lambda: h.real.close(), "exit": lambda: h.real.__exit__(None, None, None)}
        r = outcome(f[closer]) if closer in f else aoutcome(lambda: h.real.aclose())
        ctx.check(r[0] == "ok", lambda: f"closing {h.name} raised {r[1]!r}")
        h.closed = True
        for o in h.owned:
            o.closed = True
        orc.after_close(h, want, f"closing {h.name}")

    byname = model.nodes
    acts = [("res", n, hn) for n in byname if n in ("X", "O[int]", "Q[str]") for hn in hs] + [("close", None, hn) for hn in hs if hn != "root"]
    for i in range(nops):
        k, nn, hn = ctx.pick(f"op{i}", acts)
        if k == "res":
            resolve(byname[nn], hs[hn])
        else:
            h = hs[hn]
            if h.closed or any(x is not h and not x.closed and h in x.chain() for x in hs.values()):
                continue
            close(h)
    if sweep:
        for n in nodes:
            for h in list(hs.values()):
                resolve(n, h)
    for h in sorted(hs.values(), key=lambda h: -h.level):
        close(h)


def failing(ctx, kinds, lifes, stages, bodies, closers):
    """Faults in open providers and their cleanups: nothing is lost, repeated or cached."""
    from diwire import Lifetime, Scope

    w = World(ctx)
    c = strict_container()
    G3 = new_class("G3", (Obj, Generic[T]))
    from ..world import make_class
    X, Y = make_class("X"), make_class("Y")
    where = ctx.pick("fault", stages)  # None | call | exit of O[int], or exit of X / Y
    armed = {"on": True}
    boom = Fault("boom")
    boom2 = Fault("second")

    def hook(name):
        def h(stage, args):
            if not armed["on"] or where is None:
                return None
            tag = f"{name}.{stage}"
            if where == "exit+exit" and tag in ("O.exit", "X.exit"):
                raise boom if tag == "O.exit" else boom2
            if where == tag:
                raise boom
            return None
        return h

    kind = ctx.pick("O.kind", kinds)
    life = ctx.pick("O.life", [getattr(Lifetime, x) for x in lifes])
    register(c, "gen", make_provider(w, "X", "gen", X, hook=hook("X")), X, lifetime=Lifetime.SCOPED, scope=Scope.REQUEST)
    register(c, "cm", make_provider(w, "Y", "cm", Y, hook=hook("Y")), Y, lifetime=Lifetime.SCOPED, scope=Scope.REQUEST)
    prov = make_provider(w, lambda a: f"O[{a['t'].__name__}]", kind, G3, [param("t", type[T]), param("x", X)], hook=hook("O"))
    register(c, kind, prov, G3[T], lifetime=life, scope=Scope.REQUEST)
    is_async = kind in KINDS_ASYNC
    h = c.enter_scope(Scope.REQUEST)
    get = lambda k: do_resolve(h, k, is_async)  # noqa: E731
    built = []
    fails = where in ("O.call", "O.enter") and (where == "O.call" or kind in ("cm", "acm"))
    r = get(G3[int])
    if fails:
        ctx.reach("provider failed")
        ctx.check(r == ("exc", boom), lambda: f"a failing open provider gave {r!r}")
        armed["on"] = False
        r = get(G3[int])
    ctx.check(r[0] == "ok", lambda: f"O[int]: {r!r}")
    r2 = get(G3[int])
    if life is Lifetime.SCOPED:
        ctx.check(r2[0] == "ok" and r2[1] is r[1], lambda: "O[int] was rebuilt inside its scope")
    else:
        ctx.check(r2[0] == "ok" and r2[1] is not r[1], lambda: "transient O[int] was reused")
    ctx.check(get(Y)[0] == "ok" and get(G3[str])[0] == "ok", lambda: "Y / O[str] failed")
    want = [o for o in reversed(w.made) if o.node in ("X", "Y") or kind in ("gen", "cm", "agen", "acm")]
    ctx.check(sum(o.node == "X" for o in w.made) == 1, lambda: "X was built more than once")
    body = BaseException("body") if ctx.pick("body", bodies) == "base" else None
    if body is None and ctx.flag("body.fails"):
        body = KeyError("body")
    closer = ctx.pick("closer", closers) if not is_async else "async"

    def run():
        with h:
            if body is not None:
                raise body

    async def arun():
        async with h:
            if body is not None:
                raise body
    try:
        r = outcome(run) if closer == "sync" else aoutcome(arun)
    except BaseException as e:
        r = ("exc", e)
    fins = [e[2] for e in w.log if e[0] == "fin"]
    ctx.check(len(fins) == len(want) and all(a is b for a, b in zip(fins, want)), lambda: f"cleanups {fins}, expected {want}")
    cleanup_fault = armed["on"] and where in ("X.exit", "Y.exit", "O.exit", "exit+exit") and not (where == "O.exit" and kind in ("fn", "afn", "cls"))
    if body is not None:
        ctx.check(r == ("exc", body), lambda: f"the body raised {body!r}, the scope gave {r!r}")
        ctx.check(all(any(e[0] == "throw" and e[2] is o and e[3] is body for e in w.log) for o in want), lambda: "a cleanup did not see the body's exception")
        ctx.reach("body failed")
    elif cleanup_fault:
        exp = boom2 if where == "exit+exit" and kind in ("fn", "afn", "cls") else boom
        ctx.check(r == ("exc", exp), lambda: f"the first failing cleanup raised {exp!r}, the close gave {r!r}")
        ctx.reach("cleanup failed")
    else:
        ctx.check(r[0] == "ok", lambda: f"close raised {r!r}")


SY = ["fn", "gen", "cm", "cls"]
R = dict(xk=["fn"], qk=["fn"], ok=["fn"], lifes=["SCOPED", "TRANSIENT"], oscopes=["APP", "REQUEST"], xscopes=["APP", "REQUEST"], qdeps=["none", "X"], odeps=["none", "X", "Q", "Qint"],
         marks=["plain"], trees=["req"], nops=2)
C = dict(xk=["gen"], qk=["gen"], ok=["cm"], lifes=["SCOPED", "TRANSIENT"], oscopes=["APP", "REQUEST"], xscopes=["APP", "REQUEST"], qdeps=["none", "X"], odeps=["X", "Q"], trees=["req"], nops=2,
         closers=["close"])

PROPERTY = Property(
    "C16",
    [
        Harness("owners", resolving,
                "X, Q[T], O[T] with every lifetime and scope, dependency edges X/Q[T]/Q[int], 2 resolves of any closed key from any of 4 handles, both APIs",
                quick={**R, "qdeps": ["none"], "odeps": ["none", "X"]}, thorough={**R, "nops": 2},
                reach=("resolved", "mismatch")),
        Harness("nested", resolving,
                "O[T] -> Q[T] / Q[int] -> X chains over APP, REQUEST and ACTION, one resolve from any handle followed by another of the same key",
                quick={**R, "qdeps": ["X"], "odeps": ["Q", "Qint"], "nops": 2, "keys": ["O[int]", "O[str]"], "oscopes": ["APP", "REQUEST"], "xscopes": ["APP", "REQUEST", "ACTION"]},
                thorough={**R, "qdeps": ["X"], "odeps": ["Q", "Qint"], "nops": 3, "keys": ["O[int]", "O[str]", "X"], "oscopes": ["APP", "REQUEST"], "xscopes": ["APP", "REQUEST", "ACTION"], "trees": ["req", "owned"]},
                reach=("resolved", "mismatch")),
        Harness("markers", resolving,
                "O[T] depending on X, Q[T] or Q[int] through Maybe, Provider or AsyncProvider",
                quick={**R, "qdeps": ["X"], "odeps": ["X", "Q", "Qint"], "marks": ["maybe", "provider", "aprovider"], "nops": 1, "keys": ["O[int]", "O[str]"]},
                thorough={**R, "qdeps": ["X"], "odeps": ["X", "Q", "Qint"], "marks": ["maybe", "provider", "aprovider"], "nops": 2, "keys": ["O[int]", "O[str]"]},
                reach=("resolved", "mismatch", "handle")),
        Harness("async", resolving,
                "any of X, Q, O async (factory, generator, context manager); registered before or after their consumers",
                quick={**R, "xk": ["fn", "afn"], "qk": ["fn", "afn"], "ok": ["fn", "agen"], "oscopes": ["REQUEST"], "xscopes": ["APP"], "qdeps": ["X"], "odeps": ["X", "Q"], "nops": 1,
                       "keys": ["O[int]", "Q[str]"], "order": ["early", "late"]},
                thorough={**R, "xk": ["fn", "afn", "acm"], "qk": ["fn", "afn"], "ok": ["fn", "agen", "afn", "acm"], "oscopes": ["REQUEST"], "xscopes": ["APP"], "qdeps": ["X"], "odeps": ["X", "Q"], "nops": 2,
                          "keys": ["O[int]", "Q[str]"], "order": ["early", "late"]},
                reach=("resolved", "async", "mismatch")),
        Harness("kinds", resolving,
                "4 sync provider kinds for O and Q, 3 lock modes, component-qualified open keys, 3 scope trees, compiled or container root",
                quick={**R, "qk": ["fn", "gen"], "ok": SY, "odeps": ["Q"], "qdeps": ["none"], "nops": 1, "keys": ["O[int]", "Q[str]"], "locks": ["auto", "none", "thread"], "trees": ["req", "owned", "deep"],
                       "roots": ["container", "compiled"], "comps": [None, "x"], "xscopes": ["APP"], "lifes": ["SCOPED"]},
                thorough={**R, "qk": ["fn", "gen"], "ok": SY, "odeps": ["Q"], "qdeps": ["none"], "nops": 2, "keys": ["O[int]", "Q[str]"], "locks": ["auto", "none", "thread"], "trees": ["req", "owned"],
                          "roots": ["container"], "comps": [None, "x"], "xscopes": ["APP"]},
                reach=("resolved", "mismatch")),
        Harness("cleanup", cleaning,
                "histories of 2 operations (resolve X / O[int] / Q[str] from any handle, close a handle) then a full sweep; every cleanup in its scope, once, in reverse acquisition order",
                quick={**C}, thorough={**C, "nops": 3, "trees": ["req", "owned"]},
                reach=("cleanup",)),
        Harness("cleanup-trees", cleaning,
                "other scope trees (owned, deep), sync and async kinds, closed with close, __exit__ and aclose",
                quick={**C, "xk": ["gen", "agen"], "qk": ["gen"], "ok": ["gen", "acm"], "qdeps": ["X"], "odeps": ["Q"], "trees": ["owned", "deep"], "nops": 0, "closers": ["close", "exit", "aclose"], "roots": ["container", "compiled"]},
                thorough={**C, "xk": ["gen", "agen"], "qk": ["gen", "acm"], "ok": ["gen", "acm", "cm"], "qdeps": ["X"], "odeps": ["Q", "X"], "trees": ["owned", "deep", "sess"], "nops": 1, "closers": ["close", "exit", "aclose"]},
                reach=("cleanup",)),
        Harness("faults", failing,
                "O[T] of 7 kinds failing when called or entered, cleanups of O, X or Y failing (one or two), body succeeding or raising",
                quick=dict(kinds=["fn", "gen", "cm", "afn", "agen", "acm", "cls"], lifes=["SCOPED", "TRANSIENT"], stages=[None, "O.call", "O.enter", "O.exit", "X.exit", "Y.exit", "exit+exit"],
                           bodies=["none", "base"], closers=["sync", "async"]),
                reach=("provider failed", "body failed", "cleanup failed")),
    ],
)
