"""C05: faults in providers, bodies and cleanups."""
from __future__ import annotations

from ..core import Harness, Property
from ..refmodel import (
    CLEANUP_KINDS, Dep, Handle, Matcher, Model, Node, build_graph, do_resolve, open_handle,
)
from ..symx import s_and
from ..world import KINDS_ASYNC, BaseFault, Fault, World, drive, strict_container
from .c04 import EDGES, TREES, add_box


class MFault(Exception):
    pass


class FaultModel(Model):
    """Model whose providers fail where the real ones do."""

    def __init__(self, nodes):
        super().__init__(nodes)
        self.calls = {n.name: 0 for n in nodes}
        self.fail_at = {}

    def value(self, node, h):
        home = self.home(node, h)
        inst = self.owner_inst(node, h)
        if node.scoped and node.name in inst.cache:
            return inst.cache[node.name]
        from ..refmodel import MObj

        m = MObj(node, inst)
        for d in node.deps:
            m.args[d.name] = self.arg(d, home)
        self.calls[node.name] += 1
        if self.fail_at.get(node.name) == self.calls[node.name]:
            raise MFault
        self.objs.append(m)
        if node.scoped:
            inst.cache[node.name] = m
        return m


def run(fn):
    try:
        return ("ok", fn())
    except (Exception, BaseFault) as e:
        return ("exc", e)


def build(ctx, names, shape, kinds, scopes, lifes, tree, wrapped, hooks, w, locks=("auto",)):
    from diwire import Lifetime, LockMode, Scope

    c = strict_container()
    lock = {"auto": "auto", "thread": LockMode.THREAD, "none": LockMode.NONE}[ctx.pick("lock", list(locks))]
    nodes = []
    for i, n in enumerate(names):
        life = Lifetime.SCOPED if ctx.pick(f"{n}.life", lifes) == "S" else Lifetime.TRANSIENT
        nodes.append(Node(n, ctx.pick(f"{n}.kind", kinds[i]), life, getattr(Scope, ctx.pick(f"{n}.scope", scopes)),
                          [Dep(f"d{j}", names[j]) for j in EDGES[shape].get(i, []) if j < len(names)], hook=hooks(n), lock=lock))
    build_graph(ctx, w, c, nodes)
    model = FaultModel(nodes)
    if wrapped:
        add_box(w, c)
    root = c.compile()
    hs = {"root": Handle("root", 1, None, None, root)}
    for name, parent, level in tree:
        open_handle(hs, name, parent, Scope, level)
    return nodes, model, hs


def provider_fault(ctx, names, shapes, kinds, scopes, lifes, trees, wrapped, excs, locks=("auto",)):
    w = World(ctx)
    shape = ctx.pick("shape", shapes)
    fnode = ctx.pick("fault.node", list(names))
    fcall = ctx.pick("fault.call", [1, 2])
    exc = {"E": Fault("provider"), "B": BaseFault("provider")}[ctx.pick("fault.exc", excs)]
    stage = ctx.pick("fault.stage", ["call", "late"])
    calls = {}

    def hooks(n):
        def hook(st, args):
            kind = kinds_by[n]
            # 'late': __enter__ of a context manager / after the first suspension of an async one
            at = st if stage == "call" else {"enter": "late", "resumed": "late"}.get(st)
            if st == "call":
                calls[n] = calls.get(n, 0) + 1
            if n == fnode and calls.get(n) == fcall and at == stage and not (stage == "late" and kind == "acm" and st == "resumed"):
                raise exc

        return hook

    kinds_by = {}
    nodes, model, hs = build(ctx, names, shape, kinds, scopes, lifes, TREES[ctx.pick("tree", trees)],
                             ctx.pick("wrapped", wrapped), hooks, w, locks)
    for n in nodes:
        kinds_by[n.name] = n.kind
    fk = kinds_by[fnode]
    if stage == "late" and fk not in ("cm", "afn", "agen", "acm"):
        return
    model.fail_at = {fnode: fcall}
    is_async = any(n.is_async for n in nodes)
    mt = Matcher(ctx, model, w)
    stacks = {}
    pos = [0]
    failed = [False]

    def op(n, h):
        if model.errors(n, h, True):
            return
        try:
            want = model.value(n, h)
        except MFault:
            want = None
            failed[0] = True
            ctx.reach("fault")
        r = run(lambda: drive(h.real.aresolve(n.key)) if is_async else h.real.resolve(n.key))
        if want is None:
            ctx.check(r[0] == "exc" and r[1] is exc, lambda: f"resolving {n.name} from {h.name}: the provider's "
                      f"exception did not propagate, got {r[1]!r}")
        else:
            ctx.check(r[0] == "ok", lambda: f"resolving {n.name} from {h.name} "
                      f"{'after the failure ' if failed[0] else ''}failed: {r[1]!r}")
            mt.match(r[1], want, f"{h.name}.{n.name}")
        for e in w.log[pos[0]:]:
            if e[0] == "new" and kinds_by[e[1]] in CLEANUP_KINDS:
                owner = h.at(model.nodes[e[1]].level)
                stacks.setdefault(owner.name, []).append(e[2])
            elif e[0] != "new":
                ctx.check(False, lambda: f"a cleanup ran while resolving: {e!r}")
        pos[0] = len(w.log)

    for h in hs.values():
        if h.real is None:
            continue
        for n in nodes[:1] + nodes[:1] + nodes[1:]:
            op(n, h)
    for h in sorted(hs.values(), key=lambda h: -h.level):
        if h.real is None:
            continue
        want = list(reversed(stacks.pop(h.name, [])))
        for o in reversed(h.owned):
            want += list(reversed(stacks.pop(o.name, [])))
        r = run(lambda: drive(h.real.aclose()) if is_async else h.real.close())
        ctx.check(r[0] == "ok", lambda: f"closing {h.name}: {r[1]!r}")
        got = [e[2] for e in w.log[pos[0]:] if e[0] == "fin"]
        pos[0] = len(w.log)
        ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                  lambda: f"closing {h.name} after a provider failure cleaned up {got}, expected {want}")


def cleanup_fault(ctx, names, shapes, kinds, scopes, lifes, trees, wrapped, bodies, excs, closers):
    """Symbolic subset of failing cleanups, with a succeeding or failing body."""
    w = World(ctx)
    shape = ctx.pick("shape", shapes)
    flags = {n: ctx.enum(f"{n}.cleanup", ["ok", *excs, "swallow"]) for n in names}
    raised = {}

    def hooks(n):
        def hook(st, args):
            if st == "exit":
                f = flags[n]
                if f == "E":
                    e = Fault(f"cleanup {n}")
                elif f == "B":
                    e = BaseFault(f"cleanup {n}")
                else:
                    return None
                raised.setdefault("order", []).append(e)
                raise e
            if st == "swallow":
                return bool(flags[n] == "swallow")

        return hook

    nodes, model, hs = build(ctx, names, shape, kinds, scopes, lifes, TREES[ctx.pick("tree", trees)],
                             ctx.pick("wrapped", wrapped), hooks, w)
    is_async = any(n.is_async for n in nodes)
    kinds_by = {n.name: n.kind for n in nodes}
    stacks = {}
    pos = 0
    for h in hs.values():
        if h.real is None:
            continue
        for n in nodes:
            if model.errors(n, h, True):
                continue
            r = run(lambda: drive(h.real.aresolve(n.key)) if is_async else h.real.resolve(n.key))
            ctx.check(r[0] == "ok", lambda: f"resolving {n.name}: {r[1]!r}")
            for e in w.log[pos:]:
                if kinds_by[e[1]] in CLEANUP_KINDS:
                    stacks.setdefault(h.at(model.nodes[e[1]].level).name, []).append(e[2])
            pos = len(w.log)
    body = {"ok": None, "E": Fault("body"), "B": BaseFault("body")}[ctx.pick("body", bodies)]
    how = ctx.pick("closer", closers)
    for h in sorted(hs.values(), key=lambda h: -h.level):
        if h.real is None:
            continue
        want = list(reversed(stacks.pop(h.name, [])))
        for o in reversed(h.owned):
            want += list(reversed(stacks.pop(o.name, [])))
        raised["order"] = []

        def with_():
            with h.real:
                if body is not None:
                    raise body

        async def awith():
            async with h.real:
                if body is not None:
                    raise body

        et = (type(body), body, None) if body is not None else (None, None, None)
        if how == "with":
            r = run(lambda: drive(awith())) if is_async else run(with_)
        else:
            r = run(lambda: drive(h.real.aclose(*et))) if is_async else run(lambda: h.real.close(*et))
        new = w.log[pos:]
        pos = len(w.log)
        got = [e[2] for e in new if e[0] == "fin"]
        ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                  lambda: f"closing {h.name} cleaned up {got}, expected {want}")
        seen = [(e[2], e[3]) for e in new if e[0] == "throw"]
        if body is not None:
            ctx.reach("body")
            ctx.check([o for o, _ in seen] == want and all(x is body for _, x in seen),
                      lambda: f"cleanups of {h.name} saw {seen}, the body raised {body!r}")
            if how == "with":
                ctx.check(r[0] == "exc" and r[1] is body, lambda: f"the body's exception became {r!r}")
            else:
                ctx.check(r[0] == "ok", lambda: f"close({body!r}) raised {r[1]!r}")
        else:
            ctx.check(not seen, lambda: f"cleanups of {h.name} saw {seen} after a body that succeeded")
            if raised["order"]:
                ctx.reach("cleanup-error")
                first = raised["order"][0]
                ctx.check(r[0] == "exc" and r[1] is first,
                          lambda: f"closing {h.name} gave {r!r}, the first cleanup error is {first!r}")
            else:
                ctx.check(r[0] == "ok", lambda: f"closing {h.name} raised {r[1]!r}")
        pos0 = len(w.log)
        r = run(lambda: drive(h.real.aclose())) if is_async else run(lambda: h.real.close())
        ctx.check(r[0] == "ok" and len(w.log) == pos0, lambda: f"closing {h.name} again: {r!r}, {w.log[pos0:]}")


PROPERTY = Property(
    "C05",
    [
        Harness("provider", provider_fault,
                "A(B) of every sync kind; the fault hits any provider, at call or enter, on its 1st or 2nd run",
                quick=dict(names="AB", shapes=["chain"], kinds=[["gen", "cls", "cm"], ["gen", "fn", "cm"]], scopes=["APP", "REQUEST"],
                           lifes="ST", trees=["req", "owned"], wrapped=[False], excs="EB", locks=["auto", "thread"]),
                thorough=dict(scopes=["APP", "SESSION", "REQUEST", "ACTION"], trees=["req", "sess", "owned"], wrapped=[False, True]),
                reach=("fault",)),
        Harness("provider_async", provider_fault,
                "the same with async providers (faults before and after a suspension)",
                quick=dict(names="AB", shapes=["chain"], kinds=[["agen", "afn", "gen"], ["acm", "afn", "agen", "cm"]],
                           scopes=["APP", "REQUEST"], lifes="ST", trees=["req"], wrapped=[False, True], excs="EB"),
                thorough=dict(scopes=["APP", "SESSION", "REQUEST"], trees=["sess", "owned"]),
                reach=("fault",)),
        Harness("provider3", provider_fault,
                "A(B, C), B(C): fault with siblings already acquired",
                quick=dict(names="ABC", shapes=["diamond", "fan"], kinds=[["gen", "fn"], ["cm"], ["gen"]], scopes=["APP", "REQUEST"],
                           lifes="ST", trees=["req"], wrapped=[False, True], excs="E"),
                reach=("fault",)),
        Harness("cleanup", cleanup_fault,
                "up to 3 resources per scope over implicitly opened scopes; every subset of failing/swallowing cleanups, "
                "body succeeding or raising Exception/BaseException",
                quick=dict(names="ABC", shapes=["chain"], kinds=[["gen"], ["cm"], ["gen"]], scopes=["REQUEST", "ACTION"], lifes="S",
                           trees=["owned"], wrapped=[False, True], bodies=["ok", "E"], excs="EB", closers=["with", "close"]),
                thorough=dict(bodies=["ok", "E", "B"], scopes=["APP", "REQUEST", "ACTION"], lifes="ST"),
                reach=("body", "cleanup-error")),
        Harness("cleanup_async", cleanup_fault,
                "the same for async and mixed resources closed asynchronously",
                quick=dict(names="ABC", shapes=["chain"], kinds=[["agen"], ["acm", "gen"], ["agen", "cm"]], scopes=["REQUEST", "ACTION"],
                           lifes="S", trees=["owned"], wrapped=[False, True], bodies=["ok", "E"], excs="E", closers=["with"]),
                thorough=dict(bodies=["ok", "E", "B"], scopes=["APP", "REQUEST", "ACTION"], excs="EB", closers=["with", "close"]),
                reach=("body", "cleanup-error")),
    ],
    outside="asynchronous exceptions delivered by signals inside the library's own frames; more than one provider fault per history",
)
