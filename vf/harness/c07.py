"""C07: enter_scope moves to the documented scope."""
from __future__ import annotations

from types import new_class
from typing import Generic, TypeVar

from ..core import Harness, Property
from ..refmodel import err_kind
from ..world import World, aoutcome, make_class, make_provider, outcome, register, strict_container


def make_tree(levels, flags):
    """A scope collection with the given levels; flags: skippable or not."""
    from diwire._internal.scope import BaseScope, BaseScopes
    from dataclasses import dataclass, field

    ns = {"__annotations__": {}}
    for i, (lv, sk) in enumerate(zip(levels, flags)):
        ns[f"S{i}"] = field(default=BaseScope(lv, skippable=sk))
        ns["__annotations__"][f"S{i}"] = BaseScope
    cls = new_class("Tree", (BaseScopes,), {}, lambda d: d.update(ns))
    # dataclass() leaves the defaults as class attributes; __set_name__ ran on the field object
    cls = dataclass(frozen=True)(cls)
    tree = cls()
    return tree


def path(levels, skip, cur, target):
    """The documented transitions: indexes opened on the way, or None (mismatch), [] = current."""
    if target is None:
        deeper = [i for i in range(len(levels)) if i > cur]
        if not deeper:
            return None
        return [next((i for i in deeper if not skip[i]), deeper[0])]
    if target == cur:
        return []
    if target < cur:
        return None
    out = []
    while cur < target:
        imm = cur + 1
        nxt = next((i for i in range(imm, len(levels)) if not skip[i]), imm)
        cur = nxt if imm != target and nxt <= target else imm
        out.append(cur)
    return out


def transitions(ctx, nscopes, gaps, roots, regs, wrapped, nops, foreign, entry, ctxs, closers):
    from diwire import BaseScope, Lifetime

    n = nscopes
    levels = ctx.pick("levels", gaps)[:n]
    root_i = ctx.pick("root", roots)
    skip = [False] + [ctx.flag(f"skippable{i}") if i > root_i else False for i in range(1, n)]
    tree = make_tree(levels, skip)
    scopes = list(tree)
    w = World(ctx)
    c = strict_container(root_scope=scopes[root_i])
    reg = ctx.pick("providers", regs)
    keys = {}
    for i in range(root_i, n):
        if reg == "none" or (reg.startswith("root") and i != root_i):
            continue
        K = make_class(f"K{i}")
        kind = {"fn": "fn", "gen": "gen", "root-fn": "fn", "root-gen": "gen", "agen": "agen"}[reg]
        keys[i] = K
        register(c, kind, make_provider(w, f"K{i}", kind, K), K, lifetime=Lifetime.SCOPED, scope=scopes[i])
    og = ctx.pick("open_generic", wrapped)
    if og:
        T = TypeVar("T")
        Box = new_class("Box", (Generic[T],))
        c.add_factory(make_provider(w, "Box", "fn", Box[T]), provides=Box[T])
    via = ctx.pick("entry", entry)
    root = c if via == "container" else c.compile()
    # handles: dict(idx, open={idx: token}, real, new=[tokens])
    hs = [dict(idx=root_i, open={root_i: "root"}, real=root, new=[])]
    values = {}

    def probe(h, tag):
        """Exactly the levels predicted to be open are usable, each with its own instance."""
        for i, K in keys.items():
            r = aoutcome(lambda: h["real"].aresolve(K)) if reg == "agen" else outcome(lambda: h["real"].resolve(K))
            if i in h["open"]:
                ctx.check(r[0] == "ok", lambda: f"{tag}: scope {levels[i]} should be open: {r[1]!r}")
                tok = (h["open"][i], i)
                prev = values.setdefault(tok, r[1])
                ctx.check(prev is r[1], lambda: f"{tag}: scope {levels[i]} of another instance: {r[1]!r}")
                ctx.check(sum(1 for v in values.values() if v is r[1]) == 1,
                          lambda: f"{tag}: {r[1]!r} is shared between scope instances")
            else:
                ctx.check(r[0] == "exc" and err_kind(r[1]) == "scope",
                          lambda: f"{tag}: scope {levels[i]} must not be open, got {r!r}")

    for k in range(nops):
        h = hs[ctx.pick(f"op{k}.from", list(range(len(hs))))]
        options = [None, *range(n)] + (["foreign"] if foreign else [])
        t = ctx.pick(f"op{k}.target", options)
        kw = {}
        if ctxs and ctx.flag(f"op{k}.context"):
            kw["context"] = {int: k}
        if t == "foreign":
            lv = ctx.pick(f"op{k}.level", [x for x in range(min(levels) - 1, max(levels) + 2) if x not in levels])
            other = BaseScope(lv)
            other.scope_name = "OTHER"
            r = outcome(lambda: h["real"].enter_scope(other, **kw))
            ctx.check(r[0] == "exc" and err_kind(r[1]) == "scope", lambda: f"enter_scope(foreign level {lv}) gave {r!r}")
            ctx.reach("mismatch")
            continue
        want = path(levels, skip, h["idx"], t)
        if t is not None and t < root_i:
            want = None
        r = outcome(lambda: h["real"].enter_scope(None if t is None else scopes[t], **kw))
        tag = f"level {levels[h['idx']]} enter_scope({None if t is None else levels[t]}) of {list(zip(levels, skip))}"
        if want is None:
            ctx.reach("mismatch")
            ctx.check(r[0] == "exc" and err_kind(r[1]) == "scope", lambda: f"{tag} gave {r!r} instead of a mismatch")
            continue
        if not want:
            if h["idx"] == n - 1:
                ok = (r[0] == "ok" and r[1] is h["real"]) or (r[0] == "exc" and err_kind(r[1]) == "scope")
                ctx.check(ok, lambda: f"{tag} gave {r!r}")
                continue
            ctx.reach("same")
            if via == "container" and h is hs[0]:
                # the container stands for its root resolver
                ctx.check(r[0] == "ok", lambda: f"{tag} gave {r!r}")
                nh = dict(idx=h["idx"], open=dict(h["open"]), real=r[1], new=[])
                probe(nh, tag)
            else:
                ctx.check(r[0] == "ok" and r[1] is h["real"], lambda: f"{tag} did not return the current handle: {r!r}")
            continue
        ctx.reach("entered")
        ctx.check(r[0] == "ok", lambda: f"{tag} raised {r[1]!r}")
        op = dict(h["open"])
        for i in want:
            op[i] = f"op{k}"
        nh = dict(idx=want[-1], open=op, real=r[1], new=want, tok=f"op{k}")
        probe(nh, tag)
        if kw:
            from diwire import FromContext

            v = outcome(lambda: r[1].resolve(FromContext[int]))
            ctx.check(v == ("ok", k), lambda: f"{tag}: context value lost: {v!r}")
        hs.append(nh)
    for h in reversed(hs[1:]):
        probe(h, "again")
        mark = len(w.log)
        close = ctx.pick(f"close.{h['tok']}", closers) if reg != "agen" else "aclose"
        if close == "aclose":
            r = aoutcome(lambda: h["real"].aclose())
        elif close == "with":
            def body():
                with h["real"]:
                    pass
            r = outcome(body)
        else:
            r = outcome(lambda: h["real"].close())
        ctx.check(r[0] == "ok", lambda: f"close raised {r[1]!r}")
        if reg in ("gen", "agen"):
            fins = [e[2] for e in w.log[mark:] if e[0] == "fin"]
            # requested scope first, then the scopes opened on the way, deepest first
            exp = [values[(h["tok"], i)] for i in reversed(h["new"]) if i in keys]
            ctx.check([id(x) for x in fins] == [id(x) for x in exp],
                      lambda: f"closing the scope at {levels[h['idx']]} cleaned {fins}, expected {exp}")


L = [[1, 2, 3, 4, 5], [1, 3, 4, 8, 9]]
PROPERTY = Property(
    "C07",
    [
        Harness("single", transitions,
                "5 scopes, every skippable mask below the root, 3 roots, every target incl. None/shallower/foreign, 5 provider sets, with and without an open generic; 1 transition",
                quick=dict(nscopes=5, gaps=L, roots=[0, 1, 3], regs=["none", "fn", "gen", "root-fn", "root-gen"], wrapped=[False, True],
                           nops=1, foreign=True, entry=["compiled"], ctxs=False, closers=["close"]),
                thorough=dict(regs=["none", "fn", "gen", "root-fn", "root-gen", "agen"], entry=["compiled", "container"], ctxs=True, closers=["close", "with", "aclose"]),
                reach=("entered", "mismatch", "same")),
        Harness("two", transitions,
                "5 scopes, every skippable mask, 2 transitions from any open handle to any target, then close",
                quick=dict(nscopes=5, gaps=[[1, 2, 5, 6, 7]], roots=[0], regs=["none", "fn", "gen"], wrapped=[False, True],
                           nops=2, foreign=False, entry=["compiled", "container"], ctxs=False, closers=["close"]),
                thorough=dict(roots=[0, 1], nscopes=5, gaps=L, foreign=True, regs=["none", "fn", "gen", "root-gen", "agen"]),
                reach=("entered", "mismatch", "same")),
        Harness("context", transitions,
                "4 scopes, 2 transitions with and without a context mapping",
                quick=dict(nscopes=4, gaps=[[1, 2, 3, 4]], roots=[0], regs=["none", "fn", "gen"], wrapped=[False, True],
                           nops=2, foreign=False, entry=["compiled"], ctxs=True, closers=["close"]),
                thorough=dict(closers=["close", "with", "aclose"], entry=["compiled", "container"]),
                reach=("entered", "mismatch", "same")),
        Harness("deep", transitions,
                "3 scopes, every skippable mask, 3 transitions from any open handle (pool and reuse histories)",
                quick=dict(nscopes=3, gaps=[[1, 2, 3]], roots=[0], regs=["none", "fn", "gen"], wrapped=[False, True],
                           nops=3, foreign=False, entry=["compiled"], ctxs=False, closers=["close"]),
                thorough=dict(nscopes=4, gaps=[[1, 2, 3, 4]]),
                reach=("entered", "mismatch", "same")),
    ],
    outside="entering the current scope at the deepest level, where the containers documented by the tests raise DIWireScopeMismatchError: the handle or that error are both accepted",
)
