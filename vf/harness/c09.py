"""C09: concurrent use of one container never mixes keys, scopes or compilations."""
from __future__ import annotations

import threading
from types import new_class
from typing import Annotated, Generic, TypeVar

from .. import sched
from ..core import Harness, Property
from ..world import Fault, Obj, World, make_class, make_provider, param, register, strict_container

T = TypeVar("T")


def interleave(ctx, fns, preempt):
    s = sched.Sched(ctx, preempt)
    got = s.run(fns)
    if s.log:
        ctx.reach("interleaved")
    return s, got


def outcomes(ctx, what, s, got, allowed=()):
    """Values of the threads; every other end is a violation."""
    for i, g in enumerate(got):
        ctx.check(g[0] != "blocked", lambda: f"{what}: thread {i} waits for ever: {s.log!r}")
        ctx.check(g[0] == "ok" or isinstance(g[1], allowed), lambda: f"{what}: thread {i} ended with {g[1]!r}: {s.log!r}")
    return [g[1] if g[0] == "ok" else None for g in got]


def plain_provider(w, node, cls, kind, params=()):
    def hook(stage, args):
        if stage == "call":
            sched.point("provider")
    return make_provider(w, node, kind, cls, params, hook=hook)


def keys(ctx, counts, plans, handles, containers, preempt, compiled=("yes",)):
    """Threads ask the same handle for different keys, repeatedly."""
    from diwire import All, Component, Lifetime, Maybe, Provider, Scope

    n = ctx.pick("keys", counts)
    plan = ctx.pick("plan", plans)
    how = ctx.pick("container", containers)
    hname = ctx.pick("handle", handles)
    ctx.assume(max(int(k) for ops in plan for k in "".join(ops) if k.isdigit()) < n)
    ready = ctx.pick("compiled", compiled) == "yes"
    w = World(ctx)
    classes = [make_class(f"K{i}") for i in range(n)]
    KEY = [Annotated[k, Component(f"c{i}")] if i % 2 else k for i, k in enumerate(classes)]
    G = new_class("G", (Obj, Generic[T]))
    with sched.armed():
        if how == "strict":
            c = strict_container()
        elif how == "open":
            c = strict_container()
        else:
            from diwire import Container, ResolverContext

            c = Container(resolver_context=ResolverContext())
        for i, k in enumerate(classes):
            # 0, 1 cached at the root; 2, 3 new every time
            c.add_factory(plain_provider(w, f"K{i}", k, "fn"), provides=KEY[i], lifetime=Lifetime.SCOPED if i < 2 else Lifetime.TRANSIENT, scope=Scope.APP)
        if how == "open":
            c.add_factory(plain_provider(w, lambda a: f"G[{a['t'].__name__}]", G, "fn", [param("t", type[T])]), provides=G[T], lifetime=Lifetime.SCOPED, scope=Scope.APP)
        if ready:
            root = c.compile()
            h = {"root": root, "container": c, "scope": root}[hname]
            if hname == "scope":
                h = root.enter_scope(Scope.REQUEST)
        else:
            h = c
            ctx.assume(hname == "container")
    what = f"{n} keys {plan} on {hname} of a {how} container compiled={ready}"
    one = {}

    def get(op):
        kind, i = op[0], int(op[1])
        if kind == "k":
            return [h.resolve(KEY[i])]
        if kind == "m":
            return [h.resolve(Maybe[KEY[i]])]
        if kind == "p":
            return [h.resolve(Provider[KEY[i]])()]
        if kind == "a":
            return list(h.resolve(All[KEY[i]]))
        return [h.resolve(G[int if i == 0 else str])]

    def thread(ops):
        return lambda: [(op, get(op)) for op in ops]

    ctx.assume(how == "open" or "g" not in "".join("".join(o) for o in plan))
    s, got = interleave(ctx, [thread(o) for o in plan], preempt)
    for t, ops in enumerate(outcomes(ctx, what, s, got)):
        for op, vs in ops:
            i = int(op[1])
            want = f"K{i}" if op[0] != "g" else "G[int]" if i == 0 else "G[str]"
            ctx.check(len(vs) == 1 and getattr(vs[0], "node", None) == want, lambda: f"{what}: thread {t} asked for {op} and got {vs!r}: {s.log!r}")
            if i < 2:
                first = one.setdefault(want, vs[0])
                ctx.check(first is vs[0], lambda: f"{what}: two values of {want}: {first!r} and {vs[0]!r}: {s.log!r}")
            else:
                ctx.check(vs[0] not in one.setdefault("new", []), lambda: f"{what}: thread {t} got {vs[0]!r} of the transient {want} again")
                one["new"].append(vs[0])
    for i in range(2):
        v = c.resolve(KEY[i])
        ctx.check(one.get(f"K{i}", v) is v, lambda: f"{what}: afterwards {v!r} is resolved, the threads got {one[f'K{i}']!r}: {s.log!r}")
        ctx.check(len([o for o in w.made if o.node == f"K{i}"]) == 1, lambda: f"{what}: K{i} was built more than once: {s.log!r}")
    ctx.check(c.compile() is c.compile() and (not ready or c.compile() is root), lambda: f"{what}: the root changed")
    ctx.reach("all done")


def scopes(ctx, plans, qkinds, lifes, openers, contexts, preempt, deep=("no",), opens=("no",), nested=("no",)):
    """Threads open a scope each, resolve in it, and leave it."""
    from diwire import Container, FromContext, Lifetime, ResolverContext, Scope

    w = World(ctx)
    plan = ctx.pick("plan", plans)
    qk, ql = ctx.pick("Q.kind", qkinds), ctx.pick("Q.life", lifes)
    opener = ctx.pick("opener", openers)
    cx = ctx.pick("context", contexts)
    below = ctx.pick("deep", deep) == "yes"
    og = ctx.pick("open generic", opens) == "yes"
    X, Q, V = make_class("X"), make_class("Q"), make_class("V")
    G = new_class("G", (Obj, Generic[T]))
    with sched.armed():
        kw = dict(resolver_context=ResolverContext(), use_resolver_context=True) if opener == "ambient" else {}
        c = strict_container(**kw)
        register(c, "fn", plain_provider(w, "X", X, "fn"), X, lifetime=Lifetime.SCOPED, scope=Scope.APP)
        if ql != "none":
            register(c, qk, plain_provider(w, "Q", Q, qk, [param("x", X)] + ([param("v", FromContext[V])] if cx == "yes" else [])), Q, lifetime=getattr(Lifetime, ql), scope=Scope.REQUEST)
        if og:
            register(c, "fn", plain_provider(w, lambda a: "G", G, "fn", [param("x", X), param("t", type[T])]), G[T], lifetime=Lifetime.SCOPED, scope=Scope.REQUEST)
        root = c.compile()
    what = f"{plan} Q={qk} {ql} opener={opener} context={cx} deeper={below} open={og}"
    closed = []  # finished objects, in order

    def fin(o):
        return any(e[0] == "fin" and e[2] is o for e in w.log)

    def one_scope(i, n, ops):
        mine = {V: f"value {i}.{n}"} if cx == "yes" else None
        res = []
        src = root if opener == "root" else c
        with src.enter_scope(Scope.REQUEST, context=mine) if mine else src.enter_scope(Scope.REQUEST) as s:
            h = c if opener == "ambient" else s
            inner = None
            if below:
                inner = h.enter_scope(Scope.ACTION)
                inner.__enter__()
            for op in ops:
                t = inner if below and op.isupper() and opener != "ambient" else h
                key = {"q": Q, "x": X, "g": G[int], "v": FromContext[V]}[op.lower()]
                v = t.resolve(key)
                res.append((op.lower(), v, fin(v) if isinstance(v, Obj) else False))
            if inner is not None:
                inner.__exit__(None, None, None)
            sched.point("in the scope")
            alive = [not fin(v) for _, v, _ in res]
        return mine, res, alive

    def thread(i, scs):
        return lambda: [one_scope(i, n, ops) for n, ops in enumerate(scs)]

    letters = {ch.lower() for scs in plan for ops in scs for ch in ops}
    ctx.assume(ql != "none" or "q" not in letters)
    ctx.assume(og or "g" not in letters)
    ctx.assume(cx == "yes" or "v" not in letters)
    ctx.assume(not (below and opener == "ambient"))
    s, got = interleave(ctx, [thread(i, scs) for i, scs in enumerate(plan)], preempt)
    owned = {}  # id(value) -> scope
    xs = set()
    for t, runs in enumerate(outcomes(ctx, what, s, got)):
        for n, (mine, res, alive) in enumerate(runs):
            me = (t, n)
            q = g = None
            ctx.check(all(alive) and not any(d for _, _, d in res), lambda: f"{what}: a value of thread {t}'s open scope was cleaned up: {s.log!r}")
            for op, v, _ in res:
                if op == "v":
                    ctx.check(v == mine[V], lambda: f"{what}: thread {t} opened its scope with {mine!r} and got {v!r}: {s.log!r}")
                    continue
                node = op.upper()
                ctx.check(getattr(v, "node", None) == node, lambda: f"{what}: thread {t} asked for {node} and got {v!r}: {s.log!r}")
                x = v if op == "x" else v.args["x"]
                xs.add(id(x))
                if op == "x":
                    continue
                if op == "q" and cx == "yes":
                    ctx.check(v.args["v"] == mine[V], lambda: f"{what}: thread {t}'s Q was given {v.args['v']!r}, not {mine!r}: {s.log!r}")
                o = owned.setdefault(id(v), me)
                ctx.check(o == me, lambda: f"{what}: the scopes {o} and {me} share {v!r}: {s.log!r}")
                if op == "q" and ql == "SCOPED":
                    q = q or v
                    ctx.check(q is v, lambda: f"{what}: one scope of thread {t} gave {q!r} and {v!r}: {s.log!r}")
                if op == "g":
                    g = g or v
                    ctx.check(g is v, lambda: f"{what}: one scope of thread {t} gave {g!r} and {v!r}: {s.log!r}")
    ctx.check(len(xs) <= 1 and len([o for o in w.made if o.node == "X"]) == len(xs), lambda: f"{what}: X was built more than once: {s.log!r}")
    if qk in ("gen", "cm"):
        for o in w.made:
            if o.node == "Q":
                ctx.check(sum(1 for e in w.log if e[0] == "fin" and e[2] is o) == 1, lambda: f"{what}: {o!r} was not cleaned up exactly once: {s.log!r}")
    # the container works as before afterwards
    if ql != "none":
        kw = {"context": {V: "later"}} if cx == "yes" else {}
        a = root.enter_scope(Scope.REQUEST, **kw)
        b = root.enter_scope(Scope.REQUEST, **kw)
        qa, qb = a.resolve(Q), b.resolve(Q)
        ctx.check(qa is not qb and id(qa) not in owned, lambda: f"{what}: afterwards a scope gave {qa!r} of an earlier one: {s.log!r}")
        ctx.check((a.resolve(Q) is qa) == (ql == "SCOPED"), lambda: f"{what}: afterwards a scope does not keep its value: {s.log!r}")
        b.close()
        ctx.check((a.resolve(Q) is qa) == (ql == "SCOPED"), lambda: f"{what}: closing another scope disturbed one: {s.log!r}")
        a.close()
    ctx.reach("all done")


def first(ctx, plans, kinds, containers, preempt, opens=("no",)):
    """Threads use a container that is not compiled yet."""
    from diwire import Container, Lifetime, ResolverContext, Scope

    w = World(ctx)
    plan = ctx.pick("plan", plans)
    kind = ctx.pick("kind", kinds)
    how = ctx.pick("container", containers)
    og = ctx.pick("open generic", opens) == "yes"
    X, Y, Q, N = make_class("X"), make_class("Y"), make_class("Q"), make_class("N")
    M, R = make_class("M"), make_class("R")
    G = new_class("G", (Obj, Generic[T]))
    letters = {op for ops in plan for op in ops}
    ctx.assume(not letters & {"n", "m"} or how == "default")
    with sched.armed():
        c = strict_container() if how == "strict" else strict_container(use_resolver_context=True, resolver_context=ResolverContext()) if how == "ambient" else Container(resolver_context=ResolverContext())
        register(c, kind, plain_provider(w, "X", X, kind), X, lifetime=Lifetime.SCOPED, scope=Scope.APP)
        register(c, kind, plain_provider(w, "Y", Y, kind, [param("x", X)]), Y, lifetime=Lifetime.SCOPED, scope=Scope.APP)
        register(c, kind, plain_provider(w, "Q", Q, kind, [param("x", X)]), Q, lifetime=Lifetime.SCOPED, scope=Scope.REQUEST)
        if og:
            register(c, "fn", plain_provider(w, lambda a: "G", G, "fn", [param("x", X), param("t", type[T])]), G[T], lifetime=Lifetime.SCOPED, scope=Scope.APP)
    for cls, nm in ((N, "N"), (M, "M")):
        plain_provider(w, nm, cls, "cls", [param("x", X)] if nm == "N" else [])
    make_r = plain_provider(w, "R", R, kind, [param("x", X)])
    what = f"{plan} {kind} {how} open={og}"

    def do(op):
        if op == "c":
            return "c", c.compile(), None
        if op == "s":
            with c.enter_scope(Scope.REQUEST) as h:
                q = h.resolve(Q)
                return "q", q, h.resolve(Q)
        if op == "r":
            register(c, kind, make_r, R, lifetime=Lifetime.SCOPED, scope=Scope.APP)
        key = {"x": X, "y": Y, "g": G[int], "n": N, "m": M, "r": R}[op]
        return op, c.resolve(key), None

    def thread(ops):
        return lambda: [do(op) for op in ops]

    ctx.assume(og or "g" not in letters)
    s, got = interleave(ctx, [thread(o) for o in plan], preempt)
    auto = letters & {"n", "m", "r"}
    xs, roots, seen = set(), set(), {}
    for t, runs in enumerate(outcomes(ctx, what, s, got)):
        for op, v, again in runs:
            if op == "c":
                roots.add(id(v))
                x = None
                continue
            ctx.check(getattr(v, "node", None) == op.upper(), lambda: f"{what}: thread {t} asked for {op} and got {v!r}: {s.log!r}")
            x = v if op == "x" else None if op == "m" else v.args["x"]
            if x is not None:
                xs.add(id(x))
            if op == "q":
                ctx.check(again is v, lambda: f"{what}: one scope of thread {t} gave {v!r} and {again!r}: {s.log!r}")
            if op == "q":
                ctx.check(id(v) not in seen.setdefault(op, {}), lambda: f"{what}: two threads share {v!r}: {s.log!r}")
                seen[op][id(v)] = v
            elif not auto or op in "nmr":
                f = seen.setdefault(op, v)
                ctx.check(f is v, lambda: f"{what}: two values of {op}: {f!r} and {v!r}: {s.log!r}")
    if not auto:
        ctx.check(len(xs) <= 1, lambda: f"{what}: X was built more than once: {s.log!r}")
        ctx.check(len(roots) <= 1 and (not roots or id(c.compile()) in roots), lambda: f"{what}: there are several roots: {s.log!r}")
        ctx.check(c.resolve(X) is c.resolve(Y).args["x"] and (not xs or id(c.resolve(X)) in xs), lambda: f"{what}: afterwards X is another object: {s.log!r}")
        ctx.check(len([o for o in w.made if o.node == "X"]) == 1, lambda: f"{what}: X was built more than once: {s.log!r}")
    else:
        for op in sorted(auto):
            v = c.resolve({"n": N, "m": M, "r": R}[op])
            ctx.check(v.node == op.upper(), lambda: f"{what}: afterwards {op} gives {v!r}")
        ctx.check(c.resolve(X) is c.resolve(Y).args["x"], lambda: f"{what}: afterwards X and Y's X differ: {s.log!r}")
    ctx.reach("all done")


def injected(ctx, plans, qkinds, lifes, containers, compiled, preempt):
    """Threads call injected functions, which open a scope per call by themselves."""
    from diwire import Container, Injected, Lifetime, ResolverContext, Scope

    w = World(ctx)
    plan = ctx.pick("plan", plans)
    qk, ql = ctx.pick("Q.kind", qkinds), ctx.pick("Q.life", lifes)
    how = ctx.pick("container", containers)
    ready = ctx.pick("compiled", compiled) == "yes"
    X, Q = make_class("X"), make_class("Q")
    with sched.armed():
        rc = ResolverContext()
        c = Container(resolver_context=rc) if how == "default" else strict_container(resolver_context=rc, use_resolver_context=True)
        register(c, "fn", plain_provider(w, "X", X, "fn"), X, lifetime=Lifetime.SCOPED, scope=Scope.APP)
        register(c, qk, plain_provider(w, "Q", Q, qk, [param("x", X)]), Q, lifetime=getattr(Lifetime, ql), scope=Scope.REQUEST)

        def fin(o):
            return any(e[0] == "fin" and e[2] is o for e in w.log)

        def body(n, q, x):
            sched.point("body")
            return n, q, x, fin(q)

        def f(n, q: Injected[Q], x: Injected[X]):
            return body(n, q, x)

        def g(n, x: Injected[X], q: Injected[Q] = None):
            return body(n, q, x)

        for fn in (f, g):
            fn.__annotations__ = {k: {"q": Injected[Q], "x": Injected[X]}[k] for k in fn.__annotations__}
        F = {"f": rc.inject(f), "g": rc.inject(scope=Scope.REQUEST)(g)}
        if ready:
            c.compile()
    what = f"{plan} Q={qk} {ql} {how} compiled={ready}"

    def thread(i, calls):
        return lambda: [F[k](f"{i}.{n}") for n, k in enumerate(calls)]

    s, got = interleave(ctx, [thread(i, o) for i, o in enumerate(plan)], preempt)
    seen, xs = [], []
    for t, runs in enumerate(outcomes(ctx, what, s, got)):
        for n, (arg, q, x, dead) in enumerate(runs):
            ctx.check(arg == f"{t}.{n}", lambda: f"{what}: thread {t}'s call {n} saw the argument {arg!r}: {s.log!r}")
            ctx.check(getattr(q, "node", None) == "Q" and getattr(x, "node", None) == "X", lambda: f"{what}: thread {t} was given {q!r} and {x!r}: {s.log!r}")
            ctx.check(not dead, lambda: f"{what}: {q!r} was cleaned up during the call: {s.log!r}")
            ctx.check(q not in seen, lambda: f"{what}: two calls got {q!r}: {s.log!r}")
            ctx.check(q.args["x"] is x, lambda: f"{what}: {q!r} has another X than its call: {s.log!r}")
            seen.append(q)
            xs.append(x)
    ctx.check(len({id(x) for x in xs}) == 1, lambda: f"{what}: the calls saw several X: {s.log!r}")
    for node, n in (("X", 1), ("Q", len(seen))):
        ctx.check(len([o for o in w.made if o.node == node]) == n, lambda: f"{what}: {node} was built {[o for o in w.made if o.node == node]!r}: {s.log!r}")
    if qk in ("gen", "cm"):
        for q in seen:
            ctx.check(sum(1 for e in w.log if e[0] == "fin" and e[2] is q) == 1, lambda: f"{what}: {q!r} was not cleaned up exactly once: {s.log!r}")
    ctx.reach("all done")


PROPERTY = Property(
    "C09",
    [
        Harness(
            "keys", keys,
            "two threads resolve two keys each (cached / transient; plain, Component, Maybe, Provider, All, open generic) from the root, a scope or the container (strict, with open generics, autoregistering); 3 or 5 keys (below and above the dispatch cache's threshold); at most 2 preemptions",
            quick=dict(
                counts=(3, 5),
                plans=((("k0", "k1"), ("k1", "k0")), (("k2", "k3"), ("k3", "k2")), (("k0", "k2"), ("k2", "k0")), (("m1", "p2"), ("k2", "a1")), (("g0", "g1"), ("g1", "k0"))),
                handles=("root", "scope", "container"), containers=("strict", "open", "default"), preempt=2,
            ),
            reach=("interleaved", "all done"),
        ),
        Harness(
            "scopes", scopes,
            "two threads open REQUEST scopes (from the root, the container or the resolver context), resolve a value owned by the scope (function / generator; cached, transient or absent) and a root singleton in them, and leave; at most 2 preemptions",
            quick=dict(
                plans=((("qq",), ("qq",)), (("xq", "q"), ("xq",)), (("x",), ("x",))),
                qkinds=("fn", "gen"), lifes=("SCOPED", "TRANSIENT", "none"), openers=("root", "ambient"), contexts=("no",),
                opens=("no",), deep=("no",), preempt=2,
            ),
            thorough=dict(openers=("root", "container", "ambient"), plans=((("qq",), ("qq",)), (("xq", "q"), ("xq",)), (("x",), ("x",)), (("q",), ("q",), ("q",)))),
            reach=("interleaved", "all done"),
        ),
        Harness(
            "context", scopes,
            "as scopes, each scope with its own context value, read directly and by the scope's value; an open generic owned by the scope; an ACTION scope below; at most 2 preemptions (thorough: 3)",
            quick=dict(
                plans=((("vq",), ("vq",)), (("qg",), ("gq",)), (("qQ",), ("Qq",))),
                qkinds=("fn",), lifes=("SCOPED",), openers=("root",), contexts=("no", "yes"), opens=("no", "yes"), deep=("no", "yes"), preempt=2,
            ),
            thorough=dict(preempt=3, openers=("root", "container"), qkinds=("fn", "gen")),
            reach=("interleaved", "all done"),
        ),
        Harness(
            "injected", injected,
            "two threads call injected functions that open their REQUEST scope themselves, on a strict or autoregistering container; compiled before (at most 2 preemptions) or by the first call",
            quick=dict(plans=((("f",), ("f",)), (("f",), ("g",))), qkinds=("fn", "gen"), lifes=("SCOPED", "TRANSIENT"), containers=("ambient", "default"), compiled=("yes", "no"), preempt=1),
            thorough=dict(preempt=2),
            reach=("interleaved", "all done"),
            path_timeout=40.0,
        ),
        Harness(
            "first", first,
            "two threads use a container that is not compiled yet (strict, with a resolver context, or autoregistering): cached keys, a scope, compile(), an open generic, classes that are registered on demand, or by the other thread; at most 1 preemption (thorough: 2)",
            quick=dict(
                plans=((("x",), ("y",)), (("y",), ("s",)), (("c", "x"), ("c", "y")), (("g",), ("x",)), (("n",), ("n",)), (("n",), ("m",)), (("n",), ("y",)), (("r",), ("y",)), (("r",), ("n",))),
                kinds=("fn",), containers=("strict", "ambient", "default"), opens=("no", "yes"), preempt=1,
            ),
            thorough=dict(preempt=2, opens=("no",)),
            reach=("interleaved", "all done"),
            path_timeout=40.0,
        ),
    ],
)
