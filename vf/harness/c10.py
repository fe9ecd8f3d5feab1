"""C10: concurrent asyncio tasks build a cached value once, also across failures and cancellations."""
from __future__ import annotations

import asyncio
from types import new_class
from typing import Generic, TypeVar

from ..aloop import Loop, result
from ..core import Harness, Property
from ..world import KINDS_ASYNC, Fault, Obj, World, make_class, make_provider, param, register, strict_container

T = TypeVar("T")
LEVEL = {"APP": 1, "REQUEST": 3, "ACTION": 4}


def schedule(ctx, loop, start, cancels, steps=60):
    """Let the environment pick what happens between turns until nothing can happen any more.

    start: list of () -> task, in the order the program creates them; cancels: indices that may be cancelled once.
    """
    tasks = [None] * len(start)
    left = set(cancels)
    for n in range(steps):
        opts = []
        if loop.ready:
            opts.append(("turn", None))
        for i, s in enumerate(start):
            if tasks[i] is None:
                opts.append(("start", i))
                break
        for e in loop.pending():
            opts.append(("complete", e))
        for i in sorted(left):
            if tasks[i] is not None and not tasks[i].done():
                opts.append(("cancel", i))
        if not [o for o in opts if o[0] != "cancel"]:
            return tasks
        what, arg = opts[ctx.pick(f"e{n}.{len(opts)}", list(range(len(opts))))] if len(opts) > 1 else opts[0]
        if what == "turn":
            loop.turn()
        elif what == "start":
            tasks[arg] = start[arg]()
        elif what == "complete":
            arg[2].set_result(None)
        else:
            left.clear()
            tasks[arg].cancel()
    ctx.assume(False)


def build(ctx, ntasks, keys, handles, xkinds, xscopes, ykinds, ylifes, yscopes, gkinds, glifes, gscopes, faults, cancels, locks, forms, orders):
    """Tasks asking for a cached async value, a value depending on it, or an open generic depending on it."""
    from diwire import Lifetime, LockMode, Scope

    loop = Loop()
    w = World(ctx)
    c = strict_container()
    xf = ctx.pick("X.form", forms)
    X, Y = make_class("X") if xf == "plain" else new_class("X", (Obj, Generic[T])), make_class("Y")
    XK, XP, XR = (X, X, X) if xf == "plain" else (X[int], X[T], X[int])
    G = new_class("G", (Obj, Generic[T]))
    xk, xs = ctx.pick("X.kind", xkinds), ctx.pick("X.scope", xscopes)
    asked = [ctx.pick(f"key{i}", keys) for i in range(ntasks)]
    at = [ctx.pick(f"at{i}", handles) for i in range(ntasks)]
    lock = {"auto": "auto", "async": LockMode.ASYNC}[ctx.pick("lock", locks)]
    fault = ctx.pick("fault", faults)
    fnode, _, fstage = fault.partition(" ")
    failing, once = [], {"left": 1}

    def hook(node):
        def run(stage, args):
            if fnode == node and fstage in (stage, stage + "!") and (once["left"] or fstage.endswith("!")):
                once["left"] = 0
                e = Fault(node)
                failing.append((asyncio.current_task(loop), e))
                raise e
        return run

    def suspended(label):
        return lambda: loop.operation(label)

    has = set(asked)
    # an ordinary provider can only name keys registered as they are
    ctx.assume(xf == "plain" or "Y" not in has)
    yk, yl, ys = (ctx.pick("Y.kind", ykinds), ctx.pick("Y.life", ylifes), ctx.pick("Y.scope", yscopes)) if has & {"Y"} else ("fn", "SCOPED", "APP")
    gk, gl, gs = (ctx.pick("G.kind", gkinds), ctx.pick("G.life", glifes), ctx.pick("G.scope", gscopes)) if has & {"G", "Gs"} else ("fn", "SCOPED", "APP")
    S = lambda n: getattr(Scope, n)  # noqa: E731
    # a SCOPED value cannot depend on a deeper scope
    ctx.assume(not ("Y" in has and yl == "SCOPED" and LEVEL[ys] < LEVEL[xs]))
    ctx.assume(not (has & {"G", "Gs"} and gl == "SCOPED" and LEVEL[gs] < LEVEL[xs]))

    def need(key):
        if key == "X":
            return LEVEL[xs]
        return max(LEVEL[xs], LEVEL[ys if key == "Y" else gs])

    hl = {"root": 1, "r1": 3, "r2": 3, "a1": 4}
    for k, h in zip(asked, at):
        ctx.assume(need(k) <= hl[h])
    if not any(k in (fnode, fnode + "s") or fnode == "X" for k in asked) and fault != "none":
        ctx.assume(False)
    todo = [lambda: register(c, xk, make_provider(w, "X", xk, X, hook=hook("X"), suspend=suspended("X")), XP, lifetime=Lifetime.SCOPED, scope=S(xs), lock_mode=lock)]
    if "Y" in has:
        todo.append(lambda: register(c, yk, make_provider(w, "Y", yk, Y, [param("x", X)], hook=hook("Y"), suspend=suspended("Y")), Y, lifetime=getattr(Lifetime, yl), scope=S(ys), lock_mode=lock))
    if has & {"G", "Gs"}:
        todo.append(lambda: register(c, gk, make_provider(w, lambda a: f"G[{a['t'].__name__}]", gk, G, [param("t", type[T]), param("x", XK)], hook=hook("G"), suspend=suspended("G")), G[T], lifetime=getattr(Lifetime, gl), scope=S(gs), lock_mode=lock))
    if ctx.pick("order", orders) == "reversed":
        todo.reverse()
    for f in todo:
        f()
    H = {"root": c.compile()}
    if any(h != "root" for h in at):
        H["r1"] = H["root"].enter_scope(Scope.REQUEST)
        H["a1"] = H["r1"].enter_scope(Scope.ACTION)
        H["r2"] = H["root"].enter_scope(Scope.REQUEST)
    KEY = {"X": XK, "Y": Y, "G": G[int], "Gs": G[str]}

    def start(i):
        return lambda: loop.create_task(H[at[i]].aresolve(KEY[asked[i]]))

    cancel = ctx.pick("cancel", cancels)
    tasks = schedule(ctx, loop, [start(i) for i in range(ntasks)], [] if cancel == "no" else range(ntasks))
    what = f"{xf} {[f'{k}@{h}' for k, h in zip(asked, at)]} X={xk} {xs} Y={yk} {yl} {ys} G={gk} {gl} {gs} lock={lock} fault={fault}"
    loop.external = [e for e in loop.external if not e[2].done()]
    got = [result(t) for t in tasks]
    if any(g[0] == "cancelled" for g in got):
        ctx.reach("cancelled")
    if failing:
        ctx.reach("failed")
    ctx.check(not loop.errors, lambda: f"{what}: the event loop was told of {loop.errors!r}")

    def owner(level, h):
        if level == 1:
            return "root"
        if level == 3:
            return "r2" if h == "r2" else "r1"
        return "a1"

    def home(node, h):
        """Where a value of node resolved from h lives (None: nowhere, it is new every time)."""
        if node == "X":
            return owner(LEVEL[xs], h)
        life, sc = (yl, ys) if node == "Y" else (gl, gs)
        return owner(LEVEL[sc], h) if life == "SCOPED" else None

    def shape(key, v):
        node = {"Y": "Y", "G": "G[int]", "Gs": "G[str]", "X": "X"}[key]
        ctx.check(getattr(v, "node", None) == node, lambda: f"{what}: resolving {key} gave {v!r}")
        if key != "X":
            ctx.check(getattr(v.args["x"], "node", None) == "X", lambda: f"{what}: {key} was given {v.args['x']!r} for X")

    values = {}  # (node, owner) -> value
    for i, g in enumerate(got):
        ctx.check(g[0] != "pending", lambda: f"{what}: task {i} never ended although nothing is outstanding: {got!r}")
        mine = [e for t, e in failing if t is tasks[i]]
        if g[0] == "exc":
            ctx.check(any(g[1] is e for e in mine), lambda: f"{what}: task {i} ended with {g[1]!r}, which its own providers did not raise")
        elif g[0] == "cancelled":
            ctx.check(cancel != "no" and tasks[i].cancelling() > 0, lambda: f"{what}: task {i} was cancelled although nobody cancelled it")
        else:
            ctx.check(not mine, lambda: f"{what}: the error of task {i}'s provider was lost")
            shape(asked[i], g[1])
            pairs = [(asked[i], g[1])] + ([("X", g[1].args["x"])] if asked[i] != "X" else [])
            for key, v in pairs:
                o = home(key, at[i])
                if o is not None:
                    first = values.setdefault((key, o), v)
                    ctx.check(first is v, lambda: f"{what}: two tasks got different values of {key} in one scope: {first!r} and {v!r}")
    # afterwards everybody gets the values that were built, and nothing else was built
    once["left"] = 0
    if fstage.endswith("!"):
        fnode = ""
    for node in ("X", "Y", "G", "Gs"):
        if node not in has and node != "X":
            continue
        for h in H:
            if need(node) > hl[h]:
                continue
            r = result(loop.finish(H[h].aresolve(KEY[node])))
            ctx.check(r[0] == "ok", lambda: f"{what}: resolving {node} from {h} afterwards gave {r!r}")
            shape(node, r[1])
            o = home(node, h)
            if o is not None:
                first = values.setdefault((node, o), r[1])
                ctx.check(first is r[1], lambda: f"{what}: afterwards {node} in {o} is {r[1]!r}, a task got {first!r}")
            if node != "X":
                first = values.setdefault(("X", home("X", h)), r[1].args["x"])
                ctx.check(first is r[1].args["x"], lambda: f"{what}: afterwards {node} from {h} has another X")
    for node, label in (("X", "X"), ("Y", "Y"), ("G", "G[int]"), ("Gs", "G[str]")):
        if node != "X" and (home(node, "root") is None or node not in has):
            continue
        made = [o for o in w.made if o.node == label]
        kept = [v for (n, _), v in values.items() if n == node]
        ctx.check(len(made) == len(kept), lambda: f"{what}: {node} was built {len(made)} times for {len(kept)} scopes")
    ctx.reach("all done")
    for h in ("a1", "r1", "r2", "root"):
        if h in H:
            r = result(loop.finish(H[h].aclose()))
            ctx.check(r[0] == "ok", lambda: f"{what}: closing {h} gave {r!r}")
    for o in w.made:
        kind = xk if o.node == "X" else yk if o.node == "Y" else gk
        if kind in ("agen", "acm", "gen", "cm"):
            n = sum(1 for e in w.log if e[0] == "fin" and e[2] is o)
            ctx.check(n == 1, lambda: f"{what}: {o!r} was cleaned up {n} times")


def scoped(ctx, ntasks, styles, qkinds, xkinds, nested, bodies, cancels, finals, first=("fresh",)):
    """Tasks that open a scope each, use it across suspensions, and leave it - normally, by an error or by cancellation."""
    from contextlib import asynccontextmanager, contextmanager
    from typing import AsyncGenerator, Generator

    from diwire import Injected, Lifetime, ResolverContext, Scope

    loop = Loop()
    rc = ResolverContext()
    c = strict_container(resolver_context=rc, use_resolver_context=True)
    w = World(ctx)
    X, Q = make_class("X"), make_class("Q")
    qk, xk = ctx.pick("Q.kind", qkinds), ctx.pick("X.kind", xkinds)
    closing = ctx.pick("suspends when closing", finals) == "yes"
    ended = []  # (object, task) in the order cleanups started

    async def q_async(x):
        await loop.operation("Q")
        o = w.new("Q", {"x": x})
        try:
            yield o
        finally:
            ended.append((o, asyncio.current_task(loop)))
            if closing:
                await loop.operation("Q exit")

    def q_sync(x):
        o = w.new("Q", {"x": x})
        try:
            yield o
        finally:
            ended.append((o, asyncio.current_task(loop)))

    register(c, xk, make_provider(w, "X", xk, X, suspend=lambda: loop.operation("X")), X, lifetime=Lifetime.SCOPED, scope=Scope.APP)
    f = q_sync if qk in ("gen", "cm") else q_async
    gen_type = Generator[Q, None, None] if f is q_sync else AsyncGenerator[Q, None]
    if qk in ("agen", "gen"):
        f.__annotations__ = {"x": X, "return": gen_type}
        c.add_generator(f, provides=Q, lifetime=Lifetime.SCOPED, scope=Scope.REQUEST)
    else:
        g = contextmanager(f) if f is q_sync else asynccontextmanager(f)
        g.__annotations__ = {"x": X}
        c.add_context_manager(g, provides=Q, lifetime=Lifetime.SCOPED, scope=Scope.REQUEST)
    style = [ctx.pick(f"style{i}", styles) for i in range(ntasks)]
    nest = ctx.pick("nested", nested) == "yes"
    body = ctx.pick("body", bodies)
    cancel = ctx.pick("cancel", cancels)
    boom = Fault("body")
    seen = [[] for _ in range(ntasks)]
    left = [0] * ntasks
    what = f"{style} Q={qk} X={xk} nested={nest} body={body} cancel={cancel}"

    def alive(v):
        ctx.check(not any(o is v for o, _ in ended), lambda: f"{what}: {v!r} was cleaned up while its scope was open")

    async def use(i, h):
        seen[i].append(await h.aresolve(Q))
        alive(seen[i][0])
        if nest:
            async with h.enter_scope(Scope.ACTION) as a:
                seen[i].append(await a.aresolve(Q))
                if body != "nothing":
                    await loop.operation("body")
                seen[i].append(await a.aresolve(Q))
        elif body != "nothing":
            await loop.operation("body")
        seen[i].append(await h.aresolve(Q))
        alive(seen[i][0])
        left[i] = len(ended)
        if body == "error" and i == 0:
            raise boom

    async def injected_body(i, q):
        seen[i].append(q)
        alive(q)
        if body != "nothing":
            await loop.operation("body")
        seen[i].append(await rc.aresolve(Q))
        alive(q)
        left[i] = len(ended)
        if body == "error" and i == 0:
            raise boom

    injected_body.__annotations__ = {"i": int, "q": Injected[Q]}
    injected = rc.inject(injected_body)

    async def run(i):
        if style[i] == "container":
            async with c.enter_scope(Scope.REQUEST) as h:
                await use(i, h)
        elif style[i] == "context":
            async with rc.enter_scope(Scope.REQUEST) as h:
                await use(i, rc)
        elif style[i] == "injected":
            # rc.aresolve in the body needs the scope bound: the injected call opens and binds it
            await injected(i)
        else:
            h = c.enter_scope(Scope.REQUEST)
            try:
                await use(i, h)
            finally:
                await h.aclose()

    tasks = schedule(ctx, loop, [lambda i=i: loop.create_task(run(i)) for i in range(ntasks)], [] if cancel == "no" else range(ntasks))
    got = [result(t) for t in tasks]
    ctx.check(not loop.errors, lambda: f"{what}: the event loop was told of {loop.errors!r}")
    for i, g in enumerate(got):
        ctx.check(g[0] != "pending", lambda: f"{what}: task {i} never ended: {got!r}")
        if g[0] == "exc":
            ctx.check(g[1] is boom and i == 0, lambda: f"{what}: task {i} ended with {g[1]!r}")
        elif g[0] == "cancelled":
            ctx.reach("cancelled")
            ctx.check(tasks[i].cancelling() > 0, lambda: f"{what}: task {i} was cancelled although nobody cancelled it")
        else:
            ctx.check(not (body == "error" and i == 0), lambda: f"{what}: the error of the body was lost")
        ctx.check(all(v is seen[i][0] and v.node == "Q" for v in seen[i]), lambda: f"{what}: task {i} got different values in one scope: {seen[i]!r}")
        for v in seen[i][:1]:
            n = [t for o, t in ended if o is v]
            ctx.check(n == [tasks[i]], lambda: f"{what}: the value of task {i} was cleaned up {len(n)} times, by {n!r}")
    firsts = [s[0] for s in seen if s]
    ctx.check(len({id(v) for v in firsts}) == len(firsts), lambda: f"{what}: tasks share a value although each has its own scope: {seen!r}")
    xs = {id(o.args["x"]) for o in w.made if o.node == "Q"}
    ctx.check(len(xs) <= 1 and sum(1 for o in w.made if o.node == "X") <= 1, lambda: f"{what}: X was built {len([o for o in w.made if o.node == 'X'])} times")
    for o in w.made:
        if o.node == "Q":
            n = sum(1 for p, _ in ended if p is o)
            ctx.check(n == 1, lambda: f"{what}: {o!r} was cleaned up {n} times")
    if len(firsts) > 1:
        ctx.reach("several scopes")
    # the next scope starts fresh

    async def later():
        async with c.enter_scope(Scope.REQUEST) as h:
            return await h.aresolve(Q)

    r = result(loop.finish(later()))
    ctx.check(r[0] == "ok" and not any(r[1] is v for v in firsts), lambda: f"{what}: a scope opened afterwards gave {r!r}")
    ctx.check(sum(1 for o, _ in ended if o is r[1]) == 1, lambda: f"{what}: the value of a scope opened afterwards was not cleaned up once")


PROPERTY = Property(
    "C10",
    [
        Harness("build", build, "2 tasks asking for 4 related keys (a cached async value, a value and an open generic depending on it) from 4 handles; every order of starting, suspending, completing, failing and cancelling",
                quick=dict(ntasks=2, keys=["X", "Y", "G"], handles=["root", "r1"], xkinds=["agen"], xscopes=["APP", "REQUEST"], ykinds=["fn", "afn"], ylifes=["SCOPED"], yscopes=["REQUEST"],
                           gkinds=["fn", "afn"], glifes=["SCOPED"], gscopes=["APP", "REQUEST"], faults=["none", "X resumed"], cancels=["yes"], locks=["auto"], forms=["plain", "open"], orders=["declared", "reversed"]),
                thorough=dict(ntasks=2, keys=["X", "Y", "G", "Gs"], handles=["root", "r1", "r2", "a1"], xkinds=["afn", "acm"], xscopes=["APP", "REQUEST"], ykinds=["gen", "afn"], ylifes=["SCOPED"], yscopes=["REQUEST"],
                              gkinds=["fn", "agen"], glifes=["SCOPED"], gscopes=["APP", "REQUEST"], faults=["none"], cancels=["no"], locks=["auto"], forms=["plain", "open"], orders=["declared", "reversed"]),
                reach=("all done",)),
        Harness("failures", build, "2 tasks asking for 4 related keys, with every provider failing before or after its suspension, once or always, and either task cancelled at any moment",
                quick=dict(ntasks=2, keys=["X", "Y", "G"], handles=["r1"], xkinds=["afn", "agen"], xscopes=["APP"], ykinds=["afn"], ylifes=["SCOPED"], yscopes=["REQUEST"],
                           gkinds=["fn", "afn"], glifes=["SCOPED"], gscopes=["REQUEST"], faults=["X call", "X resumed", "X resumed!", "Y resumed", "G resumed", "G call!"], cancels=["yes"], locks=["auto", "async"], forms=["plain"], orders=["declared"]),
                thorough=dict(ntasks=2, keys=["X", "Y", "G"], handles=["root", "r1"], xkinds=["afn", "agen", "acm"], xscopes=["APP", "REQUEST"], ykinds=["fn", "afn"], ylifes=["SCOPED"], yscopes=["REQUEST"],
                              gkinds=["fn", "afn"], glifes=["SCOPED"], gscopes=["REQUEST"], faults=["X call", "X resumed", "X resumed!", "Y resumed", "Y resumed!", "G call", "G resumed", "G resumed!"], cancels=["yes"], locks=["auto"], forms=["plain", "open"], orders=["declared"]),
                reach=("all done", "failed", "cancelled")),
        Harness("waiters", build, "3 tasks asking for one key (thorough: or one depending on it), failing and cancelled at any moment",
                quick=dict(ntasks=3, keys=["X"], handles=["root"], xkinds=["afn"], xscopes=["APP"], ykinds=["afn"], ylifes=["SCOPED"], yscopes=["APP"],
                           gkinds=["afn"], glifes=["SCOPED"], gscopes=["APP"], faults=["none", "X call", "X resumed"], cancels=["yes"], locks=["auto"], forms=["plain", "open"], orders=["declared"]),
                thorough=dict(ntasks=3, keys=["X", "G"], handles=["root"], xkinds=["afn"], xscopes=["APP"], ykinds=["afn"], ylifes=["SCOPED"], yscopes=["APP"],
                              gkinds=["fn", "afn"], glifes=["SCOPED"], gscopes=["APP"], faults=["none", "X resumed", "X resumed!"], cancels=["yes"], locks=["auto"], forms=["plain", "open"], orders=["declared"]),
                reach=("all done", "failed", "cancelled")),
        Harness("scoped", scoped, "2 tasks, each opening its own scope (4 ways) and using it across suspensions; errors and cancellation in the body and while closing",
                quick=dict(ntasks=2, styles=["container", "injected"], qkinds=["agen", "gen"], xkinds=["afn"], nested=["no"], bodies=["await", "error"], cancels=["yes"], finals=["yes"]),
                thorough=dict(ntasks=2, styles=["container", "context", "injected", "close"], qkinds=["agen", "acm"], xkinds=["afn"], nested=["no"], bodies=["await", "error"], cancels=["yes"], finals=["no", "yes"]),
                reach=("several scopes", "cancelled")),
    ],
    assumptions=["asyncio runs ready callbacks in order, one batch per turn; between turns the environment completes, starts or cancels anything (asyncio's own Task, Future and Lock are executed)"],
    outside=["lock modes NONE and THREAD with an async graph (the documentation leaves them unguarded)", "more than 3 tasks", "one container used from several event loops", "providers that resolve from the container themselves",
             "closing a scope while another task builds in it", "uvloop and other event loops"],
)
