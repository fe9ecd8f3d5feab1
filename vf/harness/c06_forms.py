"""C06 provider forms. No postponed annotations here: the container reads real objects."""
from ..refmodel import err_kind
from ..world import Suspend, aoutcome, drive, make_class, outcome, strict_container


def forms(ctx):
    """Every way to write an async (or sync) provider, with explicit or inferred key."""
    import functools
    from contextlib import asynccontextmanager, contextmanager
    from typing import (
        Annotated, AsyncContextManager, AsyncGenerator, AsyncIterator, Awaitable, ContextManager, Coroutine, Any, Generator,
    )
    from collections.abc import AsyncGenerator as AG, Awaitable as AW, Generator as GE

    from diwire import Container, Lifetime, Scope

    K = make_class("K")
    made = []
    fins = []

    def new():
        o = object.__new__(K)
        made.append(o)
        return o

    async def a_def() -> K:
        return new()

    async def a_susp() -> K:
        await Suspend()
        return new()

    def s_awaitable() -> Awaitable[K]:
        return a_def()

    def s_coroutine() -> Coroutine[Any, Any, K]:
        return a_def()

    def s_aw() -> AW[K]:
        return a_susp()

    def s_def() -> K:
        return new()

    def s_annot() -> Annotated[K, "meta"]:
        return new()

    class SCall:
        def __call__(self) -> K:
            return new()

    async def agen() -> AsyncGenerator[K, None]:
        o = new()
        try:
            yield o
        finally:
            fins.append(o)

    async def agen_abc() -> AG[K, None]:
        o = new()
        try:
            yield o
        finally:
            fins.append(o)

    def gen() -> Generator[K, None, None]:
        o = new()
        try:
            yield o
        finally:
            fins.append(o)

    def gen_abc() -> GE[K, None, None]:
        yield from gen()

    acm = asynccontextmanager(agen)
    cm = contextmanager(gen)

    class Base:
        def _in(self):
            self.o = new()
            return self.o

        def _out(self):
            fins.append(self.o)

    class ACM(Base):
        async def __aenter__(self) -> K:
            await Suspend()
            return self._in()

        async def __aexit__(self, *a):
            self._out()

    class CM(Base):
        def __enter__(self) -> K:
            return self._in()

        def __exit__(self, *a):
            self._out()

    def f_acm() -> ACM:
        return ACM()

    def f_acm2() -> AsyncContextManager[K]:
        return ACM()

    def f_cm() -> CM:
        return CM()

    def f_cm2() -> ContextManager[K]:
        return CM()

    table = {
        "a_def": ("add_factory", a_def, True), "a_susp": ("add_factory", a_susp, True),
        "s_awaitable": ("add_factory", s_awaitable, True), "s_coroutine": ("add_factory", s_coroutine, True),
        "s_aw": ("add_factory", s_aw, True), "s_def": ("add_factory", s_def, False),
        "s_annot": ("add_factory", s_annot, False),
        "s_lambda": ("add_factory", lambda: new(), False),
        "agen": ("add_generator", agen, True), "agen_abc": ("add_generator", agen_abc, True),
        "gen": ("add_generator", gen, False), "gen_abc": ("add_generator", gen_abc, False),
        "acm": ("add_context_manager", acm, True), "cm": ("add_context_manager", cm, False),
        "ACM": ("add_context_manager", ACM, True), "CM": ("add_context_manager", CM, False),
        "f_acm": ("add_context_manager", f_acm, True), "f_acm2": ("add_context_manager", f_acm2, True),
        "f_cm": ("add_context_manager", f_cm, False), "f_cm2": ("add_context_manager", f_cm2, False),
    }
    name = ctx.pick("form", list(table))
    method, prov, is_async = table[name]
    infer = name not in ("s_lambda",) and ctx.flag("infer_key")
    life = ctx.pick("life", [Lifetime.SCOPED, Lifetime.TRANSIENT])
    scope = ctx.pick("scope", [Scope.APP, Scope.REQUEST])
    c = strict_container()
    kw = {} if infer else {"provides": K}
    if name == "s_lambda":
        kw["dependencies"] = {}
    getattr(c, method)(prov, lifetime=life, scope=scope, **kw)
    D = make_class("D")

    def dep(k):
        o = object.__new__(D)
        o.k = k
        return o

    dep.__annotations__ = {"k": K, "return": D}
    c.add_factory(dep, lifetime=Lifetime.TRANSIENT, scope=Scope.REQUEST)
    root = c.compile()
    h = root.enter_scope(Scope.REQUEST)
    for key in (K, D):
        n0 = len(made)
        r = outcome(lambda: h.resolve(key))
        if is_async:
            ctx.reach("refused")
            ctx.check(r[0] == "exc" and err_kind(r[1]) == "async" and len(made) == n0,
                      lambda: f"{name}: resolve({key.__name__}) gave {r[1]!r}, {len(made) - n0} provider runs")
        else:
            ctx.check(r[0] == "ok" and isinstance(r[1], key), lambda: f"{name}: resolve gave {r[1]!r}")
        r2 = aoutcome(lambda: h.aresolve(key))
        ctx.reach("ok")
        ctx.check(r2[0] == "ok" and isinstance(r2[1], key), lambda: f"{name}: aresolve gave {r2[1]!r}")
        v2 = r2[1] if key is K else r2[1].k
        ctx.check(any(v2 is o for o in made), lambda: f"{name}: aresolve gave {v2!r}")
        if not is_async:
            v1 = r[1] if key is K else r[1].k
            ctx.check((v1 is v2) == (life is Lifetime.SCOPED), lambda: f"{name}: resolve and aresolve disagree on caching")
    for x in (h, root):
        if is_async or ctx.flag(f"aclose.{x is h}"):
            drive(x.aclose())
        else:
            x.close()
    want = made if method != "add_factory" else []
    ctx.check([id(o) for o in fins] == [id(o) for o in reversed(want)], lambda: f"{name}: cleaned {fins} of {made}")
