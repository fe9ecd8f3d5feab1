"""C06: sync resolution fails exactly on async graphs; both APIs agree otherwise."""
from __future__ import annotations

from ..core import Harness, Property
from ..refmodel import (
    CLEANUP_KINDS, CleanupOracle, Dep, Handle, Matcher, Node, build_graph, do_resolve, err_kind, open_handle,
)
from ..world import KINDS_ASYNC, World, aoutcome, make_class, outcome, strict_container
from .c04 import TREES, add_box
from .c06_forms import forms

SHAPES = {
    "chain": [(0, 1, "plain"), (1, 2, "plain")],
    "diamond": [(0, 1, "plain"), (0, 2, "plain"), (1, 2, "plain")],
    "maybe": [(0, 1, "maybe"), (1, 2, "plain")],
    "all": [(0, 1, "all"), (1, 2, "plain")],
    "handles": [(0, 1, "provider"), (0, 2, "aprovider"), (1, 2, "plain")],
    "handle-plain": [(0, 1, "aprovider"), (0, 2, "plain")],
}


def graph(ctx, shapes, kinds, scopes, tree, wrapped, locks, nops):
    from diwire import Lifetime, LockMode, Scope

    w = World(ctx)
    c = strict_container()
    names = "ABC"
    shape = ctx.pick("shape", shapes)
    lock = {"auto": "auto", "thread": LockMode.THREAD, "none": LockMode.NONE, "async": LockMode.ASYNC}[ctx.pick("lock", locks)]
    nodes = [Node(n, ctx.pick(f"{n}.kind", kinds[i]), ctx.pick(f"{n}.life", [Lifetime.SCOPED, Lifetime.TRANSIENT]),
                  getattr(Scope, ctx.pick(f"{n}.scope", scopes)), lock=lock, suspend=(i == 1)) for i, n in enumerate(names)]
    for n in nodes:
        n.key = n.cls = make_class(n.name)
    for i, j, mk in SHAPES[shape]:
        if mk in ("provider", "aprovider") and nodes[j].level > nodes[i].level:
            return
        if mk == "all":
            nodes[i].deps.append(Dep(f"d{j}", None, "all", key=nodes[j].key, all_targets=(names[j],)))
        else:
            nodes[i].deps.append(Dep(f"d{j}", names[j], mk))
    model = build_graph(ctx, w, c, nodes)
    if ctx.pick("wrapped", wrapped):
        add_box(w, c)
    root = c.compile()
    hs = {"root": Handle("root", 1, None, None, root)}
    for name, parent, level in TREES[tree]:
        open_handle(hs, name, parent, Scope, level)
    mt = Matcher(ctx, model, w)

    def depends_async(n):
        return model.requires_async(model.nodes[n])

    def op(n, h, is_async):
        if model.scope_error(n, h):
            return
        mark = len(w.log)
        need = model.requires_async(n)
        if is_async or not need:
            r = do_resolve(h.real, n.key, is_async)
            ctx.check(r[0] == "ok", lambda: f"{'aresolve' if is_async else 'resolve'}({n.name}) from {h.name} failed: {r[1]!r}")
            mt.match(r[1], model.value(n, h), f"{h.name}.{n.name}")
            ctx.reach("ok")
            return
        cached = model.cached(n, h)
        r = do_resolve(h.real, n.key, False)
        if cached is not None and r[0] == "ok":
            mt.match(r[1], model.value(n, h), f"{h.name}.{n.name}")
            return
        ctx.reach("refused")
        ctx.check(r[0] == "exc" and err_kind(r[1]) == "async",
                  lambda: f"resolve({n.name}) from {h.name} of an async graph gave {r[1]!r}")
        ran = [e[1] for e in w.log[mark:] if e[0] == "new" and depends_async(e[1])]
        ctx.check(not ran, lambda: f"resolve({n.name}) refused but ran {ran}")
        if len(w.log) > mark:
            model.fuzzy = True  # unrelated sync providers may have run

    live = [h for h in hs.values() if h.real is not None]
    for i in range(nops):
        h = live[ctx.pick(f"op{i}.h", list(range(len(live))))]
        n = nodes[ctx.pick(f"op{i}.n", [0, 1, 2])]
        op(n, h, ctx.flag(f"op{i}.async"))
    for is_async in (False, True, False):
        for h in live:
            for n in nodes:
                op(n, h, is_async)
    mt.counts()


def closing(ctx):
    """Sync and async closes of scopes holding sync and async resources."""
    from diwire import Lifetime, Scope

    w = World(ctx)
    c = strict_container()
    nodes = []
    for i in range(3):
        nodes.append(Node(f"N{i}", ctx.pick(f"k{i}", ["gen", "cm", "agen", "acm"]), Lifetime.SCOPED,
                          getattr(Scope, ctx.pick(f"s{i}", ["REQUEST", "ACTION"]))))
    model = build_graph(ctx, w, c, nodes)
    if ctx.flag("wrapped"):
        add_box(w, c)
    root = c.compile()
    hs = {"root": Handle("root", 1, None, None, root)}
    h = open_handle(hs, "a", "root", Scope, 4)
    order = []
    for n in nodes:
        r = do_resolve(h.real, n.key, n.is_async or ctx.flag(f"{n.name}.api"))
        ctx.check(r[0] == "ok", lambda: f"{r[1]!r}")
        order.append((n, r[1]))
    act = [x for x in reversed(order) if x[0].level == 4] + [x for x in reversed(order) if x[0].level == 3]
    mode = ctx.pick("close", ["close", "exit", "with", "aclose", "awith"])
    body = ctx.flag("body_fails")
    e = KeyError("body") if body else None
    mark = len(w.log)

    def with_():
        with h.real:
            if body:
                raise e

    async def awith():
        async with h.real:
            if body:
                raise e

    et = (KeyError, e, None) if body else (None, None, None)
    r = {"close": lambda: outcome(lambda: h.real.close(*et)), "exit": lambda: outcome(lambda: h.real.__exit__(*et)),
         "with": lambda: outcome(with_), "aclose": lambda: aoutcome(lambda: h.real.aclose(*et)),
         "awith": lambda: aoutcome(awith)}[mode]()
    got = [x[2] for x in w.log[mark:] if x[0] == "fin"]
    any_async = any(n.is_async for n in nodes)
    if mode in ("aclose", "awith"):
        want = [o for _, o in act]
        bad = False
    else:
        want = [o for n, o in act if not n.is_async]
        bad = any_async
        ctx.reach("sync-close")
    ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), lambda: f"{mode} cleaned {got}, expected {want}")
    if body and mode in ("with", "awith"):
        ctx.check(r[0] == "exc" and r[1] is e, lambda: f"{mode}: body error became {r!r}")
    elif bad and not body:
        ctx.check(r[0] == "exc" and err_kind(r[1]) == "async", lambda: f"{mode} with async resources gave {r!r}")
    else:
        ctx.check(r[0] == "ok", lambda: f"{mode} raised {r[1]!r}")


ALLK = ["cls", "fn", "gen", "cm", "afn", "agen", "acm"]
PROPERTY = Property(
    "C06",
    [
        Harness("kinds", graph,
                "A(B(C)), every sync/async kind of each, 2 scopes, 2 lifetimes; sync then async then sync sweep over 4 handles",
                quick=dict(shapes=["chain"], kinds=[["cls", "gen", "afn"], ["fn", "cm", "agen", "acm"], ["fn", "afn"]],
                           scopes=["APP", "REQUEST"], tree="req", wrapped=[False], locks=["auto"], nops=0),
                thorough=dict(kinds=[ALLK, ALLK, ["fn", "gen", "afn", "acm"]], locks=["auto", "thread", "none", "async"]),
                reach=("ok", "refused")),
        Harness("shapes", graph,
                "diamond/Maybe/All/Provider/AsyncProvider dependencies",
                quick=dict(shapes=["diamond", "maybe", "all", "handles", "handle-plain"], kinds=[["fn", "gen"], ["cls", "afn"], ["fn", "agen"]],
                           scopes=["APP", "REQUEST"], tree="req", wrapped=[False, True], locks=["auto"], nops=0),
                thorough=dict(locks=["auto", "thread", "none", "async"], scopes=["APP", "SESSION", "REQUEST"], tree="sess"),
                reach=("ok", "refused")),
        Harness("history", graph,
                "symbolic first operations through either API before the sweep",
                quick=dict(shapes=["chain", "diamond"], kinds=[["fn"], ["cls", "afn"], ["gen"]],
                           scopes=["APP", "REQUEST"], tree="req", wrapped=[False], locks=["auto"], nops=1),
                thorough=dict(nops=2, wrapped=[False, True]),
                reach=("ok", "refused")),
        Harness("forms", forms, "20 ways to write a provider, key given or inferred, both APIs, direct and as a dependency",
                quick=dict(), reach=("ok", "refused")),
        Harness("closing", closing, "3 resources of 4 kinds over an explicit and an implicit scope, 5 ways to close, body ok or failing",
                quick=dict(), reach=("sync-close",)),
    ],
    outside="sync resolution of an async value that is already cached (either outcome is accepted)",
)
