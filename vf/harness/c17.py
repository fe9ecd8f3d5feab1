"""C17: the bound resolver follows with-block nesting and falls back to the last container."""
from __future__ import annotations

import contextvars
import threading

from ..core import Harness, Property
from ..refmodel import err_kind
from ..world import Fault, World, aoutcome, make_class, make_provider, outcome, param, register, strict_container


class Task:
    """One task (or thread): a contextvars context, and the resolvers entered in it, innermost last."""

    def __init__(self, name, cx=None, stack=(), thread=False):
        self.name, self.stack, self.cx = name, list(stack), cx
        self.box = None
        self.inherited = len(stack)  # entered by the parent task, which leaves them itself
        if thread:
            self.go, self.done = threading.Semaphore(0), threading.Semaphore(0)
            self.box = []
            self.t = threading.Thread(target=self._loop, daemon=True)
            self.t.start()

    def _loop(self):
        while True:
            self.go.acquire()
            f = self.box.pop()
            if f is None:
                return
            try:
                self.box.append(("ok", f()))
            except BaseException as e:
                self.box.append(("exc", e))
            self.done.release()

    def run(self, f):
        if self.box is None:
            return self.cx.run(f)
        self.box.append(f)
        self.go.release()
        self.done.acquire()
        k, v = self.box.pop()
        if k == "exc":
            raise v
        return v

    def stop(self):
        if self.box is not None:
            self.box.append(None)
            self.go.release()
            self.t.join()


class Entered:
    def __init__(self, cont, real, level, exit, cm, label):
        self.cont, self.real, self.level, self.exit, self.cm, self.label = cont, real, level, exit, cm, label
        self.binds = True


def stack(ctx, conts, sources, exits, nops, tasks=1, threads=False, apis=("sync",), extras=(), seen=("resolve",), observers="acting", unwind=True):
    from diwire import Injected, Lifetime, ResolverContext, Scope

    w = World(ctx)
    rc = ResolverContext()
    R, Q, S, G, AG = [make_class(n) for n in ("R", "Q", "S", "G", "AG")]
    C, last = {}, {"c": None}
    boom = Fault("cleanup")
    for name, use in conts:
        c = C[name] = strict_container(resolver_context=rc, use_resolver_context=use)
        c.label, c.use = name, use
        for k, sc in ((R, Scope.APP), (Q, Scope.REQUEST), (S, Scope.ACTION)):
            register(c, "fn", make_provider(w, f"{name}.{k.__name__}", "fn", k), k, lifetime=Lifetime.SCOPED, scope=sc)

        def hook(stage, args):
            if stage == "exit":
                raise boom

        register(c, "gen", make_provider(w, f"{name}.G", "gen", G, hook=hook), G, lifetime=Lifetime.SCOPED, scope=Scope.APP)
        register(c, "agen", make_provider(w, f"{name}.AG", "agen", AG), AG, lifetime=Lifetime.SCOPED, scope=Scope.APP)
        last["c"] = c
    injected = {}

    def inj_r(r):
        return r

    async def inj_ra(r):
        return r

    inj_r.__annotations__ = {"r": Injected[R]}
    inj_ra.__annotations__ = {"r": Injected[R]}
    injected["sync"], injected["async"] = rc.inject(inj_r), rc.inject(inj_ra)
    KEYS = (("R", R, 1), ("Q", Q, 3), ("S", S, 4))

    def expected(t, key, level):
        """(kind, value): what resolving key with the binding of task t must give."""
        for e in reversed(t.stack):
            if e.binds:
                return outcome(lambda: e.real.resolve(key)) if e.level >= level else ("exc", "scope")
        if last["c"] is None:
            return ("exc", "unset")
        return outcome(lambda: last["c"].compile().resolve(key)) if level <= 1 else ("exc", "scope")

    def kind_of(r):
        from diwire.exceptions import DIWireResolverNotSetError

        return "unset" if isinstance(r, DIWireResolverNotSetError) else err_kind(r)

    def same(what, got, want):
        if want[0] == "ok":
            ctx.check(got[0] == "ok" and got[1] is want[1], lambda: f"{what} gave {got!r}, the innermost entered resolver (or the last container) has {want!r}")
        else:
            ctx.check(got[0] == "exc" and kind_of(got[1]) == want[1], lambda: f"{what} gave {got!r}, expected a {want[1]} error")

    def observe(t, after):
        for kn, key, level in KEYS:
            want = expected(t, key, level)
            if "resolve" in seen:
                same(f"after {after}: {t.name}: resolve({kn})", t.run(lambda: outcome(lambda: rc.resolve(key))), want)
            if "aresolve" in seen:
                same(f"after {after}: {t.name}: aresolve({kn})", t.run(lambda: aoutcome(lambda: rc.aresolve(key))), want)
        want = expected(t, R, 1)
        if want == ("exc", "unset"):
            return
        bound = any(e.binds for e in t.stack)
        if "inject" in seen:
            w_ = want if bound or last["c"].use else ("exc", "unset")
            same(f"after {after}: {t.name}: an injected function", t.run(lambda: outcome(lambda: injected["sync"]())), w_)
            same(f"after {after}: {t.name}: an injected coroutine function", t.run(lambda: aoutcome(lambda: injected["async"]())), w_)
        if "enter" in seen:
            h = t.run(lambda: outcome(lambda: rc.enter_scope(Scope.STEP)))
            ctx.check(h[0] == "ok", lambda: f"after {after}: {t.name}: enter_scope gave {h!r}")
            for kn, key, level in KEYS:
                if level == 1 or any(e.binds and e.level >= level for e in t.stack[-1:]):
                    same(f"after {after}: {t.name}: enter_scope(STEP).resolve({kn})", outcome(lambda: h[1].resolve(key)), expected(t, key, level))
            t.run(lambda: h[1].close())

    if threads:
        ts = [Task(f"thread{i}", thread=True) for i in range(tasks)]
    else:
        ts = [Task("task0", contextvars.Context())]
        if tasks > 1:
            ts.append(Task("task1", contextvars.Context()))
    try:
        for i in range(nops):
            t = ctx.pick(f"op{i}.task", ts) if tasks > 1 else ts[0]
            top = t.stack[-1] if t.stack else None
            acts = [("enter", s) for s in sources if not (s.startswith("top.") and (top is None or top.level >= 4))]
            acts += [("exit", x) for x in exits] if len(t.stack) > t.inherited else []
            acts += [("extra", x) for x in extras if not (x == "fork" and len(ts) > 2)]
            op, arg = ctx.pick(f"op{i}", acts)
            api = ctx.pick(f"op{i}.api", list(apis)) if op == "enter" else None
            what = f"{arg} ({op})"
            if op == "enter":
                ent(ctx, w, rc, C, t, arg, api, Scope, last)
                ctx.reach("entered")
            elif op == "exit":
                leave(ctx, t, arg, {"G": G, "AG": AG}, boom)
                ctx.reach("exited" if t.stack else "exited to the fallback")
            elif arg == "fork":
                cx = t.run(contextvars.copy_context)
                ts.append(Task(f"child of {t.name}", cx, t.stack))
            elif arg == "open":
                # a handle that is opened and closed but never entered binds nothing
                h = t.run(lambda: C["A"].compile().enter_scope(Scope.REQUEST))
                t.run(lambda: h.resolve(Q))
                observe(t, "opening a handle without entering it")
                t.run(lambda: h.close())
            elif arg.startswith("close "):
                c = C[arg[6:]]
                c.compile()
                if any(e.cont is c and e.level == 1 for u in ts for e in u.stack):
                    continue
                r = t.run(lambda: outcome(lambda: c.close()))
                ctx.check(r[0] == "ok", lambda: f"{arg} gave {r!r}")
                ctx.reach("closed elsewhere")
            elif arg.startswith("aclose "):
                c = C[arg[7:]]
                c.compile()
                if any(e.cont is c and e.level == 1 for u in ts for e in u.stack):
                    continue
                r = t.run(lambda: aoutcome(lambda: c.aclose()))
                ctx.check(r[0] == "ok", lambda: f"{arg} gave {r!r}")
            elif arg.startswith("register "):
                C[arg[9:]].add_instance(object(), provides=make_class("New"))
                ctx.reach("registered inside")
            elif arg.startswith("fallback "):
                last["c"] = C[arg[9:]]
                rc.set_fallback_container(last["c"])
            for u in ts if observers == "all" else [t]:
                observe(u, what)
        if unwind:
            for t in ts:
                while len(t.stack) > t.inherited:
                    leave(ctx, t, "normal", {}, boom)
                    for u in ts if observers == "all" else [t]:
                        observe(u, "unwinding")
    finally:
        for t in ts:
            t.stop()


def ent(ctx, w, rc, C, t, arg, api, Scope, last):
    lv = {"REQ": Scope.REQUEST, "ACT": Scope.ACTION, "SES": Scope.SESSION}
    top = next((e for e in reversed(t.stack)), None)
    bound = next((e for e in reversed(t.stack) if e.binds), None)
    if arg == "A" or arg == "B":
        cont = C[arg]
        cm, level = cont, 1
    elif "." not in arg:
        raise AssertionError(arg)
    else:
        src, what = arg.split(".")
        if src == "top":
            cont = top.cont
            level = max(lv[what].level, top.level)
            cm = t.run(lambda: top.real.enter_scope(lv[what]) if top.level < level else top.real)
        elif src == "rc":
            cont = bound.cont if bound else last["c"]
            base = bound.level if bound else 1
            level = lv[what].level
            if level <= base:
                return
            cm = t.run(lambda: rc.enter_scope(lv[what]))
        else:
            cont = C[src]
            if what == "compile":
                cm, level = cont.compile(), 1
            else:
                # Container.enter_scope opens from the bound resolver, so only the compiled root is asked
                level = lv[what].level
                cm = t.run(lambda: cont.compile().enter_scope(lv[what]))
    r = t.run(lambda: outcome(lambda: cm.__enter__()) if api == "sync" else aoutcome(lambda: cm.__aenter__()))
    ctx.check(r[0] == "ok", lambda: f"entering {arg} gave {r!r}")
    e = Entered(cont, r[1], level, None, cm, arg)
    e.api = api
    # handles of a container with use_resolver_context=False bind nothing, unless they came from the resolver context
    e.binds = cont.use or arg.startswith("rc.") or (arg.startswith("top.") and top.binds)
    t.stack.append(e)


def leave(ctx, t, how, keys, boom):
    e = t.stack[-1]
    root = e.real
    err = KeyError("body")
    exc = (KeyError, err, None) if how == "raises" else (None, None, None)
    if how == "cleanup fails":
        r = t.run(lambda: outcome(lambda: root.resolve(keys["G"])))
        ctx.check(r[0] == "ok", lambda: f"resolving G gave {r!r}")
    if how == "async cleanup":
        r = t.run(lambda: aoutcome(lambda: root.aresolve(keys["AG"])))
        ctx.check(r[0] == "ok", lambda: f"resolving AG gave {r!r}")
    # the binding of e is popped by its exit, whatever the exit does
    sync = e.api == "sync"
    r = t.run(lambda: outcome(lambda: e.cm.__exit__(*exc)) if sync else aoutcome(lambda: e.cm.__aexit__(*exc)))
    if how in ("cleanup fails", "async cleanup"):
        e.cont.dirty = True  # the root is closed when its own block is left
    if how == "normal" and not getattr(e.cont, "dirty", False):
        ctx.check(r[0] == "ok", lambda: f"leaving {e.label} gave {r!r}")
    t.stack.pop()


SRC = ["A", "B", "A.compile", "A.REQ", "A.ACT", "rc.REQ", "top.ACT"]
X = ["normal", "raises", "cleanup fails", "async cleanup"]
AB = (("A", True), ("B", True))
PROPERTY = Property(
    "C17",
    [
        Harness("nesting", stack, "1 task, 4 enters / exits (container, compiled root, scope handles, rc.enter_scope, nested handles; exit normally, by exception, with a failing or async cleanup)",
                quick=dict(conts=AB, sources=SRC, exits=X, nops=3), thorough=dict(conts=AB, sources=SRC, exits=X, nops=5),
                reach=("entered", "exited", "exited to the fallback")),
        Harness("others", stack, "registrations, closing another container, opening handles without entering them and changing the fallback, between 4 enters and exits",
                quick=dict(conts=AB, sources=["A", "B.REQ", "A.compile"], exits=["normal", "raises"], nops=4, extras=["register A", "close A", "close B", "open", "fallback A"]),
                thorough=dict(conts=AB, sources=["A", "B", "B.REQ", "A.compile"], exits=["normal", "raises"], nops=5, extras=["register A", "register B", "close A", "close B", "aclose B", "open", "fallback A", "fallback B"]),
                reach=("entered", "exited", "closed elsewhere", "registered inside")),
        Harness("uses", stack, "resolve, aresolve, injected functions and enter_scope after every operation; sync and async with-blocks; containers that do not bind",
                quick=dict(conts=AB, sources=["A", "B.REQ", "rc.REQ", "top.ACT"], exits=["normal", "raises"], nops=3, apis=("sync", "async"), seen=("resolve", "aresolve", "inject", "enter")),
                thorough=dict(conts=AB, sources=SRC, exits=X, nops=4, apis=("sync", "async"), seen=("resolve", "aresolve", "inject", "enter")),
                reach=("entered", "exited")),
        Harness("unbound", stack, "a container with use_resolver_context=False next to a binding one, either created last",
                quick=dict(conts=(("B", True), ("A", False)), sources=["A", "A.REQ", "B", "B.REQ", "rc.REQ", "top.ACT"], exits=["normal", "raises"], nops=3, seen=("resolve", "aresolve", "inject"), extras=["fallback B"]),
                thorough=dict(conts=(("B", True), ("A", False)), sources=["A", "A.REQ", "B", "B.REQ", "rc.REQ", "top.ACT"], exits=X, nops=4, seen=("resolve", "aresolve", "inject"), extras=["fallback B", "register A", "close A"]),
                reach=("entered", "exited")),
        Harness("tasks", stack, "two tasks and a child task of either; every interleaving of 4 enters, exits and forks",
                quick=dict(conts=AB, sources=["A", "B.REQ", "top.ACT"], exits=["normal", "raises"], nops=4, tasks=2, extras=["fork"], observers="all"),
                thorough=dict(conts=AB, sources=["A", "B.REQ", "rc.REQ", "top.ACT"], exits=["normal", "raises"], nops=5, tasks=2, extras=["fork"], observers="all"),
                reach=("entered", "exited")),
        Harness("threads", stack, "two OS threads; every interleaving of 4 enters and exits",
                quick=dict(conts=AB, sources=["A", "B.REQ", "top.ACT"], exits=["normal", "raises"], nops=4, tasks=2, threads=True, observers="all"),
                thorough=dict(conts=AB, sources=["A", "B.REQ", "rc.REQ", "top.ACT"], exits=["normal", "raises"], nops=5, tasks=2, threads=True, observers="all"),
                reach=("entered", "exited")),
    ],
    assumptions=["with-blocks are left in the task that entered them, innermost first"],
    outside=["Container.resolve while another container is bound (C17 speaks of resolver_context)", "closing a container whose root is entered"],
)
