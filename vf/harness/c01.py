"""C01: instance identity per lifetime and owning scope."""
from __future__ import annotations

from ..core import Harness, Property
from ..symx import s_and, s_eq, s_iff, s_is, s_ite, s_not
from ..refmodel import Dep, Matcher, Node, build_graph, do_resolve, std_handles
from ..world import (
    AlwaysEqual, FalsyObj, World, aoutcome, make_class, make_provider, outcome, param, register,
    strict_container,
)


def single(ctx, kinds, locks, nops):
    """One provider; every handle of a scope tree; symbolic resolve history."""
    from diwire import Lifetime, LockMode, Scope

    w = World(ctx)
    life = ctx.enum("lifetime", [Lifetime.SCOPED, Lifetime.TRANSIENT])
    scope = ctx.pick("scope", [Scope.APP, Scope.SESSION, Scope.REQUEST, Scope.ACTION])
    kind = ctx.pick("kind", kinds)
    lock = ctx.enum("lock", [{"auto": "auto", "thread": LockMode.THREAD, "async": LockMode.ASYNC, "none": LockMode.NONE}[x] for x in locks])
    K = make_class("K")
    c = strict_container()
    prov = make_provider(w, "K", kind, K)
    register(c, kind, prov, K, lifetime=life, scope=scope, lock_mode=lock)
    pads = [make_class(f"Pad{i}") for i in range(4)]
    if ctx.flag("padding"):
        for p in pads:
            register(c, "fn", make_provider(w, "pad", "fn", p), p)

    h_root = c.compile()
    h_sess = h_root.enter_scope(Scope.SESSION)
    h_req1 = h_sess.enter_scope(Scope.REQUEST)
    h_req2 = h_sess.enter_scope(Scope.REQUEST)
    h_act1 = h_req1.enter_scope(Scope.ACTION)
    # handle -> scope instance per level
    handles = {
        "root": (h_root, {1: "root"}),
        "sess": (h_sess, {1: "root", 2: "sess"}),
        "req1": (h_req1, {1: "root", 2: "sess", 3: "req1"}),
        "req2": (h_req2, {1: "root", 2: "sess", 3: "req2"}),
        "act1": (h_act1, {1: "root", 2: "sess", 3: "req1", 4: "act1"}),
    }
    seen = []

    def do(hname, is_async):
        h, owned = handles[hname]
        if scope.level not in owned:
            return  # unreachable scope: decided by C03
        ctx.reach("resolved")
        r = aoutcome(lambda: h.aresolve(K)) if is_async else outcome(lambda: h.resolve(K))
        ctx.check(r[0] == "ok", lambda: f"resolve from {hname} failed: {r[1]!r}")
        ctx.check(isinstance(r[1], K) and r[1].node == "K", lambda: f"wrong value {r[1]!r}")
        owner = owned[scope.level]
        scoped = s_is(life, Lifetime.SCOPED)
        for (o2, own2, hn2) in seen:
            same = o2 is r[1]
            spec = s_and(scoped, own2 == owner)
            ctx.check(
                s_iff(same, spec),
                lambda: f"{'same' if same else 'different'} instance from {hn2} and {hname} "
                f"(owners {own2}/{owner}) contradicts the lifetime",
            )
        seen.append((r[1], owner, hname))

    from .. import world

    aonly = kind in world.KINDS_ASYNC
    for i in range(nops):
        hname = ctx.pick(f"op{i}.handle", list(handles))
        do(hname, True if aonly else ctx.flag(f"op{i}.async"))
    for hname in handles:  # final sweep
        do(hname, aonly)



def graph(ctx, names, kinds, handles, nops, scopes=("APP", "SESSION", "REQUEST"), sync_only=False):
    """Chain of providers: identity of every value reachable from every resolve."""
    from diwire import Lifetime, Scope

    w = World(ctx)
    c = strict_container()
    nodes = []
    for i, n in enumerate(names):
        deps = []
        if i + 1 < len(names):
            deps = [Dep("d", names[i + 1])]
            if i + 2 < len(names):
                deps.append(Dep("e", names[i + 2]))
        nodes.append(
            Node(
                n,
                ctx.pick(f"{n}.kind", kinds[i]),
                ctx.enum(f"{n}.life", [Lifetime.SCOPED, Lifetime.TRANSIENT]),
                ctx.pick(f"{n}.scope", [getattr(Scope, s) for s in scopes]),
                deps,
            )
        )
    model = build_graph(ctx, w, c, nodes)
    root = c.compile()
    hs = std_handles(root, Scope, handles)
    mt = Matcher(ctx, model, w)

    def op(n, h, is_async):
        if model.errors(n, h, is_async):
            return
        ctx.reach("resolved")
        r = do_resolve(h.real, n.key, is_async)
        ctx.check(r[0] == "ok", lambda: f"resolve {n.name} from {h.name} failed: {r[1]!r}")
        mt.match(r[1], model.value(n, h), f"{h.name}.{n.name}")

    names_ops = nodes[:2]
    for i in range(nops):
        n = ctx.pick(f"op{i}.node", names_ops)
        h = hs[ctx.pick(f"op{i}.h", list(hs))]
        op(n, h, (not sync_only and ctx.flag(f"op{i}.async")) or model.requires_async(n))
    for h in hs.values():
        for n in nodes:
            op(n, h, model.requires_async(n))
    mt.counts()


def values(ctx, nres):
    """The cached value may be anything, including None, falsy and overloaded-equality objects."""
    from diwire import Lifetime, LockMode, Scope

    w = World(ctx)
    c = strict_container()
    F, A = object.__new__(FalsyObj), object.__new__(AlwaysEqual)
    vals = [None, 0, False, "", (), F, A, ValueError, NotImplemented]
    val = ctx.enum("value", vals)  # one path for all values unless the code inspects them
    via = ctx.pick("via", ["fn", "gen", "cm", "afn", "agen", "acm"])
    scope = ctx.pick("scope", [Scope.APP, Scope.REQUEST])
    life = ctx.enum("life", [Lifetime.SCOPED, Lifetime.TRANSIENT])
    lock = ctx.enum("lock", ["auto", LockMode.THREAD, LockMode.NONE])
    K = make_class("K")
    n = [0]

    class P_(World):
        def new(self, node, args, cls=None):
            n[0] += 1
            return val

    prov = make_provider(P_(ctx), "K", via, K)
    register(c, via, prov, K, lifetime=life, scope=scope, lock_mode=lock)
    C = make_class("Cons")
    seen = []
    register(c, "cls", make_provider(w, "Cons", "cls", C, (param("k", K), param("k2", K))), C,
             lifetime=Lifetime.TRANSIENT, scope=Scope.REQUEST)
    root = c.compile()
    hs = [root.enter_scope(), root.enter_scope(), root]
    from .. import world

    asy = via in world.KINDS_ASYNC
    counts = []
    for i in range(nres):
        h = ctx.pick(f"op{i}.h", [0, 1, 2] if scope is Scope.APP else [0, 1])
        cons = ctx.flag(f"op{i}.cons")
        if cons and h == 2:
            return
        a = asy or ctx.flag(f"op{i}.async")
        r = do_resolve(hs[h], C if cons else K, a)
        ctx.check(r[0] == "ok", lambda: f"resolve failed: {r[1]!r}")
        got = [r[1].args["k"], r[1].args["k2"]] if cons else [r[1]]
        ctx.check(s_and([s_is(g, val) for g in got]), lambda: f"got {got!r}, the provider returned {val!r}")
        counts += [h] * len(got)
    scoped = s_is(life, Lifetime.SCOPED)
    want_scoped = 1 if scope is Scope.APP else len(set(counts))
    ctx.check(s_eq(s_ite(scoped, want_scoped, len(counts)), n[0]),
              lambda: f"provider returning {val!r} ran {n[0]} times for {len(counts)} uses")
    ctx.reach("counted")


def instances(ctx):
    """add_instance always yields that very object, from every scope and path."""
    from diwire import All, AsyncProvider, Component, Lifetime, Maybe, Provider, Scope
    from typing import Annotated

    c = strict_container()
    w = World(ctx)
    K = make_class("K")
    O = object.__new__(K)
    O.node, O.args = "K", {}
    vals = [O, object.__new__(FalsyObj), object.__new__(AlwaysEqual), 0, "", ()]
    val = ctx.pick("value", vals)
    comp = ctx.pick("component", [None, "x"])
    first = ctx.pick("first", [None, "fn", "inst"])
    if first == "inst":
        c.add_instance(object(), provides=K, component=comp)
    elif first == "fn":
        c.add_factory(make_provider(w, "old", "fn", K), provides=K, component=comp)
    if ctx.flag("early_resolve") and first is not None:
        c.resolve(K if comp is None else Annotated[K, Component(comp)])
    c.add_instance(val, provides=K, component=comp)
    key = K if comp is None else Annotated[K, Component(comp)]
    C = make_class("Cons")
    sc = ctx.pick("scope", [Scope.APP, Scope.REQUEST])
    register(c, "fn", make_provider(w, "Cons", "fn", C, (
        param("k", key), param("p", Provider[key]), param("m", Maybe[key]), param("all", All[K]))), C,
        lifetime=ctx.pick("life", [Lifetime.SCOPED, Lifetime.TRANSIENT]), scope=sc)
    root = c.compile()
    h = ctx.pick("handle", [0, 1, 2, 3])
    h = [root, root.enter_scope(), root.enter_scope(Scope.SESSION), root.enter_scope(Scope.ACTION)][h]
    for asy in (False, True):
        for k in (key, Maybe[key]):
            r = do_resolve(h, k, asy)
            ctx.check(r[0] == "ok" and r[1] is val, lambda: f"resolve({k}) gave {r[1]!r}")
        r = do_resolve(h, All[K], asy)
        ctx.check(r[0] == "ok" and len(r[1]) == 1 and r[1][0] is val, lambda: f"All gave {r[1]!r}")
        r = do_resolve(h, C, asy)
        if r[0] != "ok":
            continue  # scope decided by C03
        ctx.reach("consumer")
        a = r[1].args
        ctx.check(a["k"] is val and a["p"]() is val and a["m"] is val and a["all"][0] is val,
                  lambda: f"consumer received {a!r}")


def reopen(ctx, kinds, nops, wrapped=(False,)):
    """Scopes opened, closed and opened again in any order: no instance inherits another's values."""
    from diwire import Lifetime, Scope

    from ..refmodel import Handle, open_handle

    w = World(ctx)
    c = strict_container()
    B = Node("B", ctx.pick("B.kind", kinds), ctx.pick("B.life", [Lifetime.SCOPED, Lifetime.TRANSIENT]),
             getattr(Scope, ctx.pick("B.scope", ["APP", "REQUEST", "ACTION"])))
    A = Node("A", ctx.pick("A.kind", ["cls", "fn"]), ctx.pick("A.life", [Lifetime.SCOPED, Lifetime.TRANSIENT]),
             getattr(Scope, ctx.pick("A.scope", ["REQUEST", "ACTION"])), [Dep("b", "B")])
    model = build_graph(ctx, w, c, [A, B])
    if ctx.pick("wrapped", list(wrapped)):
        from .c04 import add_box

        add_box(w, c)
    root = c.compile()
    hs = {"root": Handle("root", 1, None, None, root)}
    mt = Matcher(ctx, model, w)
    n = 0

    def usable(h):
        return all(not x.closed for x in h.chain())

    def resolve(h):
        for node in (A, B):
            if usable(h) and h.real is not None and not model.errors(node, h, False):
                ctx.reach("resolved")
                r = do_resolve(h.real, node.key, False)
                ctx.check(r[0] == "ok", lambda: f"resolve {node.name} from {h.name} failed: {r[1]!r}")
                mt.match(r[1], model.value(node, h), f"{h.name}.{node.name}")

    def opened(parent, level, name):
        p = hs[parent]
        h = open_handle(hs, name, parent, Scope, level)
        for other in hs.values():
            if other is not h and other.real is h.real and not other.closed and other.parent is h.parent \
                    and (A.scoped and A.level == level or B.scoped and B.level == level):
                ctx.check(False, lambda: f"entering {name} returned the live scope {other.name}")
        return h

    for i in range(nops):
        live = [k for k, h in hs.items() if usable(h) and h.real is not None]
        acts = [("open", k, lv) for k in live for lv in ((3, 4) if hs[k].level == 1 else (4,) if hs[k].level == 3 else ())]
        leafs = [k for k in live if k != "root" and not any(hs[k] in x.chain()[1:] and not x.closed and x.real is not None for x in hs.values())]
        acts += [("close", k, 0) for k in leafs] + [("resolve", k, 0) for k in live if k != "root"]
        op, k, lv = ctx.pick(f"op{i}", acts)
        if op == "open":
            n += 1
            h = opened(k, lv, f"s{n}")
            if ctx.flag(f"op{i}.use"):
                resolve(h)
        elif op == "close":
            hs[k].real.close()
            hs[k].closed = True
            for o in hs[k].owned:
                o.closed = True
        else:
            resolve(hs[k])
    for h in list(hs.values()):
        resolve(h)
    mt.counts()


SYNC4 = ["cls", "fn", "gen", "cm"]

PROPERTY = Property(
    "C01",
    [
        Harness(
            "single",
            single,
            "1 provider of any kind (+4 unrelated), 4 scope levels, 5 handles, symbolic resolves then a sweep",
            quick=dict(kinds=["cls", "fn", "gen", "cm", "afn", "agen", "acm"], locks=["auto", "thread", "none"], nops=1),
            thorough=dict(locks=["auto", "thread", "async", "none"], nops=2),
            reach=("resolved",),
        ),
        Harness(
            "pair",
            graph,
            "provider A with dependency B, 3 scope levels each, 7 handles, 1 symbolic resolve then a sweep "
            "of every key in every handle; arguments compared by identity",
            quick=dict(names="AB", kinds=[["cls", "gen", "afn"], ["fn", "cm", "afn", "instance"]],
                       handles=("sess", "req1", "req2", "act1", "reqx", "reqy"), nops=1),
            thorough=dict(kinds=[["cls", "fn", "gen", "cm", "afn", "agen"], ["cls", "fn", "gen", "cm", "afn", "acm", "instance"]],
                          nops=2),
            reach=("resolved",),
        ),
        Harness(
            "chain",
            graph,
            "A(B, C), B(C): diamond over 3 scope levels each, 3 handles",
            quick=dict(names="ABC", kinds=[["fn"], ["fn"], ["cls"]], handles=("reqx", "reqy"), nops=1,
                       sync_only=True, scopes=("APP", "REQUEST")),
            thorough=dict(kinds=[["fn", "agen"], ["fn", "gen"], ["cls", "instance", "afn"]], sync_only=False,
                          handles=("sess", "req1", "reqx"), scopes=("APP", "SESSION", "REQUEST")),
            reach=("resolved",),
        ),
        Harness(
            "reopen",
            reopen,
            "A(B), symbolic sequences of opening (REQUEST, or ACTION with an implicit REQUEST), using and closing "
            "scopes, 4 operations; every scope representation (pooled, shared, per instance)",
            quick=dict(kinds=["fn", "gen"], nops=3),
            thorough=dict(nops=5, kinds=["fn", "gen", "cm", "instance"], wrapped=(False, True)),
            reach=("resolved",),
        ),
        Harness(
            "values",
            values,
            "any provided value among None/0/False/''/()/falsy object/always-equal object/class; 2 resolves "
            "directly or as a dependency, 3 handles",
            quick=dict(nres=2),
            thorough=dict(nres=3),
            reach=("counted",),
        ),
        Harness(
            "instances",
            instances,
            "add_instance values from 4 handles and 6 access paths, also replacing earlier registrations",
            quick=dict(),
            reach=("consumer",),
        ),
    ],
    outside="add_instance(None, ...), values re-created because a later registration recompiled the graph",
)
