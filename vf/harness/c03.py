"""C03: DIWireScopeMismatchError exactly when a required scope is not open."""
from __future__ import annotations

from ..core import Harness, Property
from ..refmodel import Dep, Matcher, Node, build_graph, do_resolve, err_kind, std_handles
from ..world import World, make_class, make_provider, register, strict_container


def _handles_for(ctx, root, Scope, tree):
    return std_handles(root, Scope, tree)


def mismatch(ctx, names, shapes, kinds, locks, scopes, lifes, tree, nops, open_generic=False, unrelated=False):
    from diwire import Lifetime, LockMode, Scope

    w = World(ctx)
    c = strict_container()
    shape = ctx.pick("shape", shapes)
    edges = {
        "chain": {0: [(1, "plain")], 1: [(2, "plain")]},
        "diamond": {0: [(1, "plain"), (2, "plain")], 1: [(2, "plain")]},
        "fan": {0: [(1, "plain"), (2, "plain")]},
        "maybe": {0: [(1, "maybe")], 1: [(2, "maybe")]},
        "provider": {0: [(1, "provider")], 1: [(2, "plain")]},
        "all": {0: [(1, "all")], 1: [(2, "plain")]},
    }[shape]
    lock = ctx.pick("lock", locks)
    lock = {"auto": "auto", "thread": LockMode.THREAD, "none": LockMode.NONE, "async": LockMode.ASYNC}[lock]
    nodes = []
    for i, n in enumerate(names):
        sc = getattr(Scope, ctx.pick(f"{n}.scope", scopes))
        life = Lifetime.SCOPED if ctx.pick(f"{n}.life", lifes) == "S" else Lifetime.TRANSIENT
        kind = ctx.pick(f"{n}.kind", kinds[i])
        nodes.append(Node(n, kind, life, sc, [], lock=lock))
    for i, es in edges.items():
        for j, mk in es:
            if j < len(nodes) and i < len(nodes):
                if mk == "provider" and nodes[j].level > nodes[i].level:
                    return  # rejected at registration time (C23)
                d = Dep(f"d{j}", names[j], mk)
                nodes[i].deps.append(d)
    for n in nodes:
        n.cls = make_class(n.name)
        n.key = n.cls
    for n in nodes:
        for d in n.deps:
            if d.marker == "all":
                d.key = next(x for x in nodes if x.name == d.target).key
                d.all_targets = (d.target,)
                d.target = None
    model = build_graph(ctx, w, c, nodes)
    if open_generic:
        from types import new_class
        from typing import Generic, TypeVar

        T = TypeVar("T")
        Box = new_class("Box", (Generic[T],))
        c.add_factory(make_provider(w, "Box", "fn", Box[T]), provides=Box[T])
    root = c.compile()
    hs = _handles_for(ctx, root, Scope, tree)
    mt = Matcher(ctx, model, w)
    levels = {n.name: n.level for n in nodes}

    def op(n, h, is_async):
        if not is_async and model.requires_async(n):
            return
        expect = model.scope_error(n, h)
        mark = len(w.log)
        r = do_resolve(h.real, n.key, is_async)
        api = "aresolve" if is_async else "resolve"
        if expect:
            ctx.reach("mismatch")
            ctx.check(r[0] == "exc" and err_kind(r[1]) == "scope",
                      lambda: f"{api}({n.name}) from {h.name} gave {r[1]!r} instead of a scope mismatch")
            open_levels = {x.level for x in h.chain()}
            ran = [e[1] for e in w.log[mark:] if e[0] == "new" and levels.get(e[1], 1) not in open_levels]
            ctx.check(not ran, lambda: f"{api}({n.name}) from {h.name} ran {ran} outside its scope")
            model.fuzzy = True
        else:
            ctx.reach("ok")
            ctx.check(r[0] == "ok", lambda: f"{api}({n.name}) from {h.name} failed: {r[1]!r}")
            mt.match(r[1], model.value(n, h), f"{h.name}.{n.name}")

    for i in range(nops):
        n = nodes[ctx.pick(f"op{i}.node", list(range(len(nodes))))]
        h = hs[ctx.pick(f"op{i}.h", list(hs))]
        op(n, h, ctx.flag(f"op{i}.async"))
    for is_async in (True, False):
        for h in hs.values():
            for n in nodes:
                op(n, h, is_async)


def markers(ctx):
    """Direct resolution through Maybe / All / Provider keys and injected callables."""
    from diwire import All, AsyncProvider, Lifetime, Maybe, Provider, Scope

    w = World(ctx)
    c = strict_container()
    A, B = make_class("A"), make_class("B")
    sa = ctx.pick("A.scope", [Scope.APP, Scope.SESSION, Scope.REQUEST, Scope.ACTION])
    sb = ctx.pick("B.scope", [Scope.APP, Scope.SESSION, Scope.REQUEST, Scope.ACTION])
    kind = ctx.pick("kind", ["cls", "gen"])
    life = ctx.pick("life", [Lifetime.SCOPED, Lifetime.TRANSIENT])
    register(c, kind, make_provider(w, "A", kind, A), A, scope=sa, lifetime=life)
    register(c, "fn", make_provider(w, "B", "fn", A, cls=B), A, scope=sb, component="b", lifetime=life)
    if ctx.flag("open"):
        from types import new_class
        from typing import Generic, TypeVar

        T = TypeVar("T")
        Box = new_class("Box", (Generic[T],))
        c.add_factory(make_provider(w, "Box", "fn", Box[T]), provides=Box[T])
    root = c.compile()
    hs = std_handles(root, Scope, ("sess", "req1", "act1", "reqx", "actx"))
    for h in hs.values():
        openl = {x.level for x in h.chain()}
        for asy in (False, True):
            for key, need in ((Maybe[A], {sa.level}), (All[A], {sa.level, sb.level}), (A, {sa.level})):
                mark = len(w.log)
                r = do_resolve(h.real, key, asy)
                if need <= openl:
                    ctx.reach("ok")
                    ctx.check(r[0] == "ok", lambda: f"{key} from {h.name}: {r[1]!r}")
                else:
                    ctx.reach("mismatch")
                    ctx.check(r[0] == "exc" and err_kind(r[1]) == "scope", lambda: f"{key} from {h.name}: {r[1]!r}")
                    ran = [e[1] for e in w.log[mark:] if {"A": sa, "B": sb}[e[1]].level not in openl]
                    ctx.check(not ran, lambda: f"{key} from {h.name} ran {ran}")
            r = do_resolve(h.real, Provider[A], asy)
            if r[0] == "ok":  # asking for a handle resolves nothing yet
                r = __import__("vf.world", fromlist=["outcome"]).outcome(r[1])
            if sa.level in openl:
                ctx.check(r[0] == "ok", lambda: f"Provider[A]() from {h.name}: {r[1]!r}")
            else:
                ctx.check(r[0] == "exc" and err_kind(r[1]) == "scope", lambda: f"Provider[A]() from {h.name}: {r[1]!r}")


L4 = ["APP", "SESSION", "REQUEST", "ACTION"]
TREE = ("sess", "req1", "act1", "reqx", "actx")

PROPERTY = Property(
    "C03",
    [
        Harness("chain", mismatch,
                "A -> B -> C, 4 levels and 2 lifetimes each, every key from 6 handles (SESSION open or skipped), both APIs",
                quick=dict(names="ABC", shapes=["chain"], kinds=[["fn"], ["fn"], ["fn", "gen"]], locks=["auto"],
                           scopes=L4, lifes="ST", tree=TREE, nops=0),
                thorough=dict(kinds=[["fn", "gen", "cls"], ["fn", "gen", "cm"], ["fn", "gen", "cls"]], locks=["auto", "none"]),
                reach=("ok", "mismatch")),
        Harness("kinds", mismatch,
                "A -> B, every provider kind (sync and async) and lock mode",
                quick=dict(names="AB", shapes=["chain"], kinds=[["cls", "gen", "cm", "afn"], ["fn", "cm", "agen", "instance"]],
                           locks=["auto", "thread", "none"], scopes=L4, lifes="ST", tree=TREE, nops=0),
                thorough=dict(kinds=[["cls", "fn", "gen", "cm", "afn", "agen", "acm"]] * 2, locks=["auto", "thread", "async", "none"]),
                reach=("ok", "mismatch")),
        Harness("shapes", mismatch,
                "3 providers linked as diamond/fan/Maybe/Provider/All, 3 levels",
                quick=dict(names="ABC", shapes=["diamond", "fan", "maybe", "provider", "all"], kinds=[["fn", "gen"], ["fn"], ["fn"]],
                           locks=["auto"], scopes=["APP", "SESSION", "ACTION"], lifes="ST", tree=TREE, nops=0),
                thorough=dict(scopes=L4, kinds=[["fn", "cls"], ["gen"], ["fn", "cm"]]),
                reach=("ok", "mismatch")),
        Harness("history", mismatch,
                "A -> B with a symbolic first resolve before the sweep, with and without an open generic in the container",
                quick=dict(names="AB", shapes=["chain"], kinds=[["fn"], ["cls"]], locks=["auto"], scopes=L4, lifes="ST",
                           tree=TREE, nops=1),
                thorough=dict(nops=2, kinds=[["fn", "gen"], ["cls", "gen"]]),
                reach=("ok", "mismatch")),
        Harness("opengeneric", mismatch,
                "A -> B in a container that also has an open generic registration (wrapped resolvers)",
                quick=dict(names="ABC", shapes=["chain"], kinds=[["fn"], ["gen"], ["fn"]], locks=["auto"], scopes=L4, lifes="ST",
                           tree=TREE, nops=0, open_generic=True),
                reach=("ok", "mismatch")),
        Harness("markers", markers,
                "Maybe/All/Provider keys resolved directly from 6 handles", quick=dict(), reach=("ok", "mismatch")),
    ],
    outside="custom scope enumerations (C07 covers their transitions); scopes deeper than ACTION",
)
