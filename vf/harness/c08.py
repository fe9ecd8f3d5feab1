"""C08: concurrent threads build a cached value once, in every schedule and with failing providers."""
from __future__ import annotations

import threading
from types import new_class
from typing import Generic, TypeVar

from .. import sched
from ..core import Harness, Property
from ..world import Fault, Obj, World, make_class, make_provider, param, register, strict_container

T = TypeVar("T")
LEVEL = {"APP": 1, "REQUEST": 3, "ACTION": 4}
HL = {"root": 1, "r1": 3, "r2": 3, "a1": 4}


def build(ctx, nthreads, asks, kinds, xscopes, ylifes, yscopes, gscopes, faults, locks, preempt, forms=("plain",), via=("resolve",)):
    """Threads asking for a cached value, values depending on it, or an open generic depending on it."""
    from diwire import Lifetime, LockMode, Scope

    w = World(ctx)
    plan = ctx.pick("asks", asks)
    asked, at = [a.split("@")[0] for a in plan], [a.split("@")[1] for a in plan]
    has = set(asked)
    xf = ctx.pick("X.form", forms)
    ctx.assume(xf == "plain" or not has & {"Y", "Z"})
    kset = ctx.pick("kinds", kinds)
    kd = dict(zip("XYZG", kset))
    xs = ctx.pick("X.scope", xscopes)
    yl, ys = (ctx.pick("Y.life", ylifes), ctx.pick("Y.scope", yscopes)) if has & {"Y", "Z"} else ("SCOPED", "APP")
    gs = ctx.pick("G.scope", gscopes) if has & {"G", "Gs"} else "APP"
    ctx.assume(not (has & {"Y", "Z"} and yl == "SCOPED" and LEVEL[ys] < LEVEL[xs]))
    ctx.assume(not (has & {"G", "Gs"} and LEVEL[gs] < LEVEL[xs]))
    lock = {"auto": "auto", "thread": LockMode.THREAD}[ctx.pick("lock", locks)]
    fault = ctx.pick("fault", faults)
    fnode, _, fmode = fault.partition(" ")
    ctx.assume(fault == "none" or fnode == "X" or fnode in has)

    def need(key):
        return {"X": LEVEL[xs], "G": LEVEL[gs], "Gs": LEVEL[gs]}.get(key) or max(LEVEL[xs], LEVEL[ys])

    for k, h in zip(asked, at):
        ctx.assume(need(k) <= HL[h])
    failing, once = [], {"left": 1}
    running = {}

    def hook(node):
        def run(stage, args):
            if stage == "call":
                sched.point("provider")
                if fnode == node and (once["left"] or fmode == "always"):
                    once["left"] = 0
                    e = Fault(node)
                    failing.append((threading.get_ident(), e))
                    raise e
        return run

    X, Y, Z = make_class("X") if xf == "plain" else new_class("X", (Obj, Generic[T])), make_class("Y"), make_class("Z")
    XK, XP, XR = (X, X, X) if xf == "plain" else (X[int], X[T], X[int])
    G = new_class("G", (Obj, Generic[T]))
    S = lambda n: getattr(Scope, n)  # noqa: E731
    with sched.armed():
        c = strict_container()
        register(c, kd["X"], make_provider(w, "X", kd["X"], X, hook=hook("X")), XP, lifetime=Lifetime.SCOPED, scope=S(xs), lock_mode=lock)
        if has & {"Y", "Z"}:
            register(c, kd["Y"], make_provider(w, "Y", kd["Y"], Y, [param("x", X)], hook=hook("Y")), Y, lifetime=getattr(Lifetime, yl), scope=S(ys), lock_mode=lock)
        if "Z" in has:
            register(c, kd["Z"], make_provider(w, "Z", kd["Z"], Z, [param("x", X), param("y", Y)], hook=hook("Z")), Z, lifetime=getattr(Lifetime, yl), scope=S(ys), lock_mode=lock)
        if has & {"G", "Gs"}:
            register(c, kd["G"], make_provider(w, lambda a: f"G[{a['t'].__name__}]", kd["G"], G, [param("t", type[T]), param("x", XR if xf == "plain" else XK)], hook=hook("G")), G[T], lifetime=Lifetime.SCOPED, scope=S(gs), lock_mode=lock)
        H = {"root": c.compile()}
        if any(h != "root" for h in at):
            H["r1"] = H["root"].enter_scope(Scope.REQUEST)
            if "a1" in at:
                H["a1"] = H["r1"].enter_scope(Scope.ACTION)
            if "r2" in at:
                H["r2"] = H["root"].enter_scope(Scope.REQUEST)
    KEY = {"X": XK, "Y": Y, "Z": Z, "G": G[int], "Gs": G[str]}
    ids = [None] * nthreads

    def complete(o):
        return hasattr(o, "seq") and all(complete(v) for v in o.args.values() if isinstance(v, Obj))

    how = ctx.pick("via", via)

    def thread(i):
        def run():
            ids[i] = threading.get_ident()
            v = H[at[i]].resolve(KEY[asked[i]])
            return v, complete(v)
        return run

    s = sched.Sched(ctx, preempt)
    got = s.run([thread(i) for i in range(nthreads)])
    what = f"{xf} {plan} {kd} X={xs} Y={yl} {ys} G={gs} lock={lock} fault={fault}"
    if len(s.log):
        ctx.reach("interleaved")
    if any(e[2] == "blocked" for e in s.log):
        ctx.reach("waited")
    if failing:
        ctx.reach("failed")

    def owner(level, h):
        return "root" if level == 1 else (("r2" if h == "r2" else "r1") if level == 3 else "a1")

    def home(node, h):
        if node == "X":
            return owner(LEVEL[xs], h)
        life, sc = (yl, ys) if node in "YZ" else ("SCOPED", gs)
        return owner(LEVEL[sc], h) if life == "SCOPED" else None

    NODE = {"Y": "Y", "Z": "Z", "G": "G[int]", "Gs": "G[str]", "X": "X"}
    values = {}

    def keep(key, h, v, who):
        ctx.check(getattr(v, "node", None) == NODE[key], lambda: f"{what}: {who} asked for {key} and got {v!r}")
        o = home(key, h)
        if o is not None:
            first = values.setdefault((key, o), v)
            ctx.check(first is v, lambda: f"{what}: {who} got {v!r} for {key} in {o}, another thread got {first!r}")
        for k in {"X": (), "Y": ("x",), "Z": ("x", "y"), "G": ("x",), "Gs": ("x",)}[key]:
            keep(k.upper(), h, v.args[k], who)

    for i, g in enumerate(got):
        ctx.check(g[0] != "blocked", lambda: f"{what}: thread {i} waits for ever: {s.log!r}")
        mine = [e for t, e in failing if t == ids[i]]
        if g[0] == "exc":
            ctx.check(any(g[1] is e for e in mine), lambda: f"{what}: thread {i} ended with {g[1]!r}, which its own providers did not raise")
        else:
            ctx.check(not mine, lambda: f"{what}: the error of thread {i}'s provider was lost")
            v, whole = g[1]
            ctx.check(whole, lambda: f"{what}: thread {i} was given {v!r} before it was constructed")
            keep(asked[i], at[i], v, f"thread {i}")
    # afterwards everybody gets the values that were built, and nothing else was built
    once["left"] = 0
    fnode = ""
    for key in ("X", "Y", "Z", "G", "Gs"):
        if key != "X" and key not in has:
            continue
        for h in H:
            if need(key) <= HL[h]:
                keep(key, h, H[h].resolve(KEY[key]), f"{h} afterwards")
    for key in ("X", "Y", "Z", "G", "Gs"):
        if home(key, "root") is not None or key == "X":
            made = [o for o in w.made if o.node == NODE[key]]
            kept = [v for (n, _), v in values.items() if n == key]
            ctx.check(len(made) == len(kept), lambda: f"{what}: {key} was built {len(made)} times for {len(kept)} scopes: {s.log!r}")
    ctx.reach("all done")
    for h in ("a1", "r1", "r2", "root"):
        if h in H:
            H[h].close()
    for o in w.made:
        if kd[o.node[0]] in ("gen", "cm"):
            n = sum(1 for e in w.log if e[0] == "fin" and e[2] is o)
            ctx.check(n == 1, lambda: f"{what}: {o!r} was cleaned up {n} times")


FAULTS = ("none", "X first", "X always", "Y first")
# who asks for what where
ROOT_PAIRS = (("X@root", "X@root"), ("X@root", "Y@root"), ("Y@root", "Y@root"), ("Z@root", "Y@root"), ("Z@root", "X@root"), ("G@root", "G@root"), ("G@root", "Gs@root"), ("G@root", "X@root"))
SCOPE_PAIRS = (("X@r1", "X@r1"), ("X@r1", "X@r2"), ("Y@r1", "Y@r1"), ("Y@r1", "X@r1"), ("Y@r1", "Y@r2"), ("Y@r1", "Y@a1"), ("Z@a1", "Y@r1"), ("G@r1", "G@r1"), ("G@r1", "G@r2"), ("G@r1", "Gs@a1"))
MIXED = ("gen", "fn", "cls", "cm")
PROPERTY = Property(
    "C08",
    [
        Harness(
            "root", build,
            "two threads ask the root for X, Y(X), Z(X, Y) or an open G[int]/G[str](X), all cached at the root; functions / a mix of generator, function, class and context manager (thorough: all of one kind); X or Y fails the first time (thorough: or always); at most 2 preemptions",
            quick=dict(
                nthreads=2, asks=ROOT_PAIRS,
                kinds=(("fn",) * 4, MIXED), xscopes=("APP",), ylifes=("SCOPED",), yscopes=("APP",), gscopes=("APP",),
                faults=("none", "X first", "Y first"), locks=("auto",), preempt=2, forms=("plain",),
            ),
            thorough=dict(kinds=(("fn",) * 4, ("cls",) * 4, ("gen",) * 4, ("cm",) * 4, MIXED), faults=FAULTS, locks=("auto", "thread")),
            reach=("interleaved", "waited", "failed", "all done"),
        ),
        Harness(
            "open", build,
            "as root, with X itself a closed key of an open generic registration, lock_mode auto / THREAD",
            quick=dict(
                nthreads=2, asks=(("X@root", "X@root"), ("G@root", "G@root"), ("G@root", "X@root"), ("G@root", "Gs@root")),
                kinds=(("fn",) * 4,), xscopes=("APP",), ylifes=("SCOPED",), yscopes=("APP",), gscopes=("APP",),
                faults=("none", "X first"), locks=("auto", "thread"), preempt=2, forms=("open",),
            ),
            thorough=dict(kinds=(("fn",) * 4, MIXED), faults=("none", "X first", "X always", "G first"), preempt=3),
            reach=("interleaved", "waited", "failed", "all done"),
        ),
        Harness(
            "scopes", build,
            "two threads ask two REQUEST scopes and an ACTION scope; X at APP / REQUEST, Y and Z cached or transient at APP / REQUEST, G at APP / REQUEST; X fails the first time or not; at most 2 preemptions",
            quick=dict(
                nthreads=2, asks=SCOPE_PAIRS,
                kinds=(MIXED,), xscopes=("APP", "REQUEST"), ylifes=("SCOPED", "TRANSIENT"), yscopes=("APP", "REQUEST"), gscopes=("APP", "REQUEST"),
                faults=("none",), locks=("auto",), preempt=2, forms=("plain",),
            ),
            thorough=dict(faults=("none", "X first"), kinds=(("fn",) * 4, MIXED)),
            reach=("interleaved", "waited", "all done"),
        ),
        Harness(
            "three", build,
            "three threads at the root (X, Y(X), Z(X, Y), G[int]/G[str]); at most 1 preemption (thorough: 2)",
            quick=dict(
                nthreads=3, asks=(("X@root", "Y@root", "Z@root"), ("Z@root", "Z@root", "X@root"), ("G@root", "G@root", "Gs@root")),
                kinds=(MIXED,), xscopes=("APP",), ylifes=("SCOPED",), yscopes=("APP",), gscopes=("APP",),
                faults=("none", "X first"), locks=("auto",), preempt=1,
            ),
            thorough=dict(preempt=2),
            reach=("interleaved", "waited", "failed", "all done"),
        ),
    ],
    assumptions=[
        "threads are switched only at scheduling points: before reads and writes of attributes that the current source changes after construction, before getattr/setattr with computed names, before lock acquisitions and inside providers; what CPython does in one bytecode is atomic",
        "threading locks are replaced by cooperative ones with the same semantics while the harness runs",
    ],
    outside="more threads or preemptions than stated; graphs with async providers (C10); providers that resolve through the container themselves; free-threaded CPython",
)
