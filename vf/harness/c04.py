"""C04: cleanup runs exactly once, in reverse order, when the owning scope closes."""
from __future__ import annotations

from ..core import Harness, Property
from ..refmodel import CleanupOracle, Dep, Handle, Matcher, Node, build_graph, do_resolve, open_handle
from ..world import KINDS_ASYNC, World, aoutcome, make_provider, outcome, strict_container

TREES = {
    # name, parent, level
    "req": [("r1", "root", 3), ("r2", "root", 3), ("a1", "r1", 4)],
    "sess": [("s1", "root", 2), ("r1", "s1", 3), ("r2", "s1", 3), ("a1", "r1", 4)],
    "owned": [("a1", "root", 4), ("s1", "root", 2), ("a2", "s1", 4)],
    "deep": [("r1", "root", 3), ("t1", "r1", 5), ("t2", "root", 5)],
}
EDGES = {
    "chain": {0: [1], 1: [2]},
    "diamond": {0: [1, 2], 1: [2]},
    "fan": {0: [1, 2]},
    "none": {},
}


def add_box(w, c):
    from types import new_class
    from typing import Generic, TypeVar

    T = TypeVar("T")
    Box = new_class("Box", (Generic[T],))
    c.add_factory(make_provider(w, "Box", "fn", Box[T]), provides=Box[T])


def history(ctx, names, edges, kinds, scopes, trees, nops, closers, wrapped=(False,), roots=("compiled",),
            locks=("auto",), double=False, sweep=True):
    from diwire import Lifetime, LockMode, Scope

    w = World(ctx)
    c = strict_container()
    shape = ctx.pick("edges", edges)
    nodes = []
    lock = {"auto": "auto", "none": LockMode.NONE, "thread": LockMode.THREAD}[ctx.pick("lock", locks)]
    for i, n in enumerate(names):
        nodes.append(Node(n, ctx.pick(f"{n}.kind", kinds[i]), ctx.pick(f"{n}.life", [Lifetime.SCOPED, Lifetime.TRANSIENT]),
                          getattr(Scope, ctx.pick(f"{n}.scope", scopes)),
                          [Dep(f"d{j}", names[j]) for j in EDGES[shape].get(i, []) if j < len(names)], lock=lock))
    model = build_graph(ctx, w, c, nodes)
    if ctx.pick("wrapped", list(wrapped)):
        add_box(w, c)
    is_async = any(model.requires_async(n) for n in nodes)
    real_root = c.compile() if ctx.pick("root", list(roots)) == "compiled" else c
    hs = {"root": Handle("root", 1, None, None, real_root)}
    hs["root"].owned, hs["root"].closed = [], False
    tree = TREES[ctx.pick("tree", trees)]
    for name, parent, level in tree:
        open_handle(hs, name, parent, Scope, level)
    mt = Matcher(ctx, model, w)
    orc = CleanupOracle(ctx, model, mt, w)
    closer = ctx.pick("closer", closers) if not is_async else "aclose"
    how = {"n": 0}

    def usable(h):
        return all(not x.closed for x in h.chain())

    def resolve(n, h):
        if not usable(h) or model.errors(n, h, True):
            return
        asy = is_async or (n is nodes[0] and ctx.flag(f"api{how['n']}") if nops and how["n"] < nops else False)
        how["n"] += 1
        r = do_resolve(h.real, n.key, asy)
        ctx.check(r[0] == "ok", lambda: f"resolve {n.name} from {h.name} failed: {r[1]!r}")
        mt.match(r[1], model.value(n, h), f"{h.name}.{n.name}")
        orc.after_resolve(f"resolving {n.name} from {h.name}")

    def close(h, again=False):
        if h.closed and not again:
            return
        want = orc.expect_close(h)
        if want:
            ctx.reach("cleanup")
        if closer == "close":
            r = outcome(lambda: h.real.close())
        elif closer == "exit":
            r = outcome(lambda: h.real.__exit__(None, None, None))
        elif closer == "with":
            def run():
                with h.real:
                    pass
            r = outcome(run)
        elif closer == "aexit":
            r = aoutcome(lambda: h.real.__aexit__(None, None, None))
        else:
            r = aoutcome(lambda: h.real.aclose())
        ctx.check(r[0] == "ok", lambda: f"closing {h.name} raised {r[1]!r}")
        h.closed = True
        for o in h.owned:
            o.closed = True
        orc.after_close(h, want, f"closing {h.name}{' again' if again else ''}")

    acts = [("res", n.name, hn) for n in nodes[:2] for hn in hs] + [("close", None, hn) for hn in hs if hn != "root"]
    for i in range(nops):
        k, nn, hn = ctx.pick(f"op{i}", acts)
        if k == "res":
            resolve(model.nodes[nn], hs[hn])
        else:
            h = hs[hn]
            if h.closed:
                if double:
                    close(h, again=True)
                continue
            # properly nested use: children are closed before their parents
            if any(x is not h and not x.closed and h in x.chain() for x in hs.values()):
                continue
            close(h)
    if sweep:
        for n in nodes:
            for h in list(hs.values()):
                resolve(n, h)
    order = list(hs.values())
    order.sort(key=lambda h: -h.level)
    for h in order:
        close(h)
    if double:
        for h in order:
            close(h, again=True)
    made = [o for o in w.made if orc.kinds.get(o.node) in ("gen", "cm", "agen", "acm")]
    ctx.check(len(made) == len(orc.done) and {id(o) for o in made} == {id(o) for o in orc.done},
              lambda: f"resources {made}, cleaned up {orc.done}")


def outoforder(ctx, closers):
    """Parents closed before children: each instance still cleans up only its own resources, once."""
    from diwire import Lifetime, Scope

    w = World(ctx)
    c = strict_container()
    scopes = [Scope.APP, Scope.SESSION, Scope.REQUEST, Scope.ACTION]
    nodes = [Node(f"N{i}", ctx.pick(f"k{i}", ["gen", "cm"]) if i < 2 else "gen", Lifetime.SCOPED, s) for i, s in enumerate(scopes)]
    model = build_graph(ctx, w, c, nodes)
    if ctx.flag("wrapped"):
        add_box(w, c)
    hs = {"root": Handle("root", 1, None, None, c.compile())}
    hs["root"].owned, hs["root"].closed = [], False
    for name, parent, level in TREES["sess"]:
        open_handle(hs, name, parent, Scope, level)
    mt = Matcher(ctx, model, w)
    orc = CleanupOracle(ctx, model, mt, w)
    for h in hs.values():
        for n in nodes:
            if not model.errors(n, h, False):
                r = do_resolve(h.real, n.key, False)
                ctx.check(r[0] == "ok", lambda: f"{r[1]!r}")
                mt.match(r[1], model.value(n, h), n.name)
                orc.after_resolve(n.name)
    left = list(hs)
    closer = ctx.pick("closer", closers)
    while left:
        hn = ctx.pick(f"close{len(left)}", left)
        left.remove(hn)
        h = hs[hn]
        for again in (False, True):
            want = orc.expect_close(h)
            r = outcome(h.real.close) if closer == "close" else aoutcome(h.real.aclose)
            ctx.check(r[0] == "ok", lambda: f"close: {r[1]!r}")
            orc.after_close(h, want, f"closing {hn}")
    ctx.reach("closed")
    ctx.check(len(orc.done) == len(w.made), lambda: f"{len(w.made)} resources, {len(orc.done)} cleanups")


S3 = ["APP", "REQUEST", "ACTION"]
ALLC = ["close", "exit", "with", "aclose", "aexit"]
PROPERTY = Property(
    "C04",
    [
        Harness("pair", history,
                "A(B) with generator/context-manager providers, 3 levels and 2 lifetimes each, a tree of 4-5 scope "
                "instances, 2 symbolic resolve/close operations then a sweep and a full close",
                quick=dict(names="AB", edges=["chain"], kinds=[["gen"], ["cm"]], scopes=S3, trees=["req"], nops=2,
                           closers=["close"]),
                thorough=dict(kinds=[["gen", "cls"], ["cm", "gen"]], trees=["req", "sess", "owned"], nops=2, closers=["close", "aclose"]),
                reach=("cleanup",)),
        Harness("kinds", history,
                "A(B) of every sync provider kind, every scope tree (implicitly opened scopes included) and closing API, "
                "container or compiled root, with and without open generics",
                quick=dict(names="AB", edges=["chain"], kinds=[["gen", "cls", "cm"], ["cm", "fn", "gen"]],
                           scopes=S3, trees=["sess", "owned", "deep"], nops=0, closers=["close", "with", "aexit"], wrapped=(False, True),
                           roots=("compiled",)),
                thorough=dict(closers=ALLC, roots=("compiled", "container"), scopes=S3 + ["SESSION", "STEP"], locks=["auto", "none", "thread"]),
                reach=("cleanup",)),
        Harness("async", history,
                "A(B) mixing async and sync resources, closed asynchronously",
                quick=dict(names="AB", edges=["chain"], kinds=[["agen", "gen", "afn"], ["acm", "agen", "cm"]],
                           scopes=S3, trees=["sess", "owned"], nops=1, closers=["aclose"], wrapped=(False,)),
                thorough=dict(trees=["req", "sess", "owned", "deep"], wrapped=(False, True), nops=2),
                reach=("cleanup",)),
        Harness("diamond", history,
                "A(B, C), B(C): three resources over 2 levels, acquisition order across shared dependencies",
                quick=dict(names="ABC", edges=["diamond", "fan"], kinds=[["gen", "fn"], ["cm"], ["gen"]],
                           scopes=["APP", "REQUEST"], trees=["req", "owned"], nops=1, closers=["close"], wrapped=(False, True)),
                thorough=dict(scopes=S3, nops=2, wrapped=(False,)),
                reach=("cleanup",)),
        Harness("double", history,
                "scopes closed twice in the middle of a history",
                quick=dict(names="AB", edges=["chain"], kinds=[["gen", "fn"], ["gen"]], scopes=["APP", "REQUEST"], trees=["req"],
                           nops=2, closers=["close", "aclose"], double=True, wrapped=(False, True), sweep=False),
                thorough=dict(nops=3),
                reach=("cleanup",)),
        Harness("container", history,
                "the container itself as root handle and closing API",
                quick=dict(names="AB", edges=["chain"], kinds=[["gen"], ["cm", "fn"]], scopes=S3, trees=["sess"], nops=0,
                           closers=ALLC, roots=("container",), wrapped=(False, True)),
                reach=("cleanup",)),
        Harness("anyorder", outoforder,
                "4 levels of resources, scope instances closed in every order, each twice",
                quick=dict(closers=["close", "aclose"]), reach=("closed",)),
    ],
    outside="resolving from a scope that is already closed; double close of a scope of a graph without any cleanup (D9, C09)",
)
