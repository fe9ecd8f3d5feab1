"""Common environment for the harnesses: provider stubs, outcome capture, coroutine driver.

Providers are environment stubs: they record the call, optionally consult a symbolic fault
variable of the context, and return a fresh object carrying the arguments they received.
"""
from __future__ import annotations

import inspect
import typing
from contextlib import asynccontextmanager, contextmanager

P = inspect.Parameter
POS, PK, VP, KO, VK = (
    P.POSITIONAL_ONLY,
    P.POSITIONAL_OR_KEYWORD,
    P.VAR_POSITIONAL,
    P.KEYWORD_ONLY,
    P.VAR_KEYWORD,
)


class Fault(Exception):
    """The exception symbolic faults raise."""


class BaseFault(BaseException):
    pass


class Obj:
    """Provided value. ``node``: provider label, ``args``: received arguments by parameter name."""

    node = None
    args = None

    def __repr__(self):
        return f"<{self.node}#{getattr(self, 'seq', '?')}>"


class FalsyObj(Obj):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class AlwaysEqual(Obj):
    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.log = []
        self.seq = 0
        self.made = []

    def new(self, node, args, cls=Obj):
        o = object.__new__(cls)
        o.node = node
        o.args = args
        o.seq = self.seq
        self.seq += 1
        self.made.append(o)
        self.log.append(("new", node, o))
        return o


class Suspend:
    """Awaitable that suspends once (a real suspension point for async providers)."""

    def __await__(self):
        yield


def drive(coro):
    """Run a coroutine to completion, resuming it at every suspension point."""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value
    finally:
        coro.close()


def outcome(fn):
    """('ok', value) or ('exc', exception)."""
    try:
        return ("ok", fn())
    except Exception as e:
        return ("exc", e)


def aoutcome(make):
    return outcome(lambda: drive(make()))


def sig(params):
    return inspect.Signature(params)


def param(name, ann=P.empty, kind=PK, default=P.empty):
    return P(name, kind, annotation=ann, default=default)


KINDS_SYNC = ("cls", "fn", "gen", "cm")
KINDS_ASYNC = ("afn", "agen", "acm")


def make_class(name, bases=(), ns=None):
    return type(name, (*bases, Obj) if not bases else bases, dict(ns or {}))


def make_provider(w, node, kind, ret, params=(), hook=None, suspend=True, cls=None):
    """Build a provider callable of the given kind with an explicit signature.

    ``node`` may be a function of the arguments (open generics: one provider, many nodes).

    ``ret``: the provided class.  ``hook(stage, args)`` runs at 'call', 'enter', 'exit'
    (may raise, modelling faults); ``cls``: class of the produced object (default ret).
    """
    signature = sig(params)
    out_cls = cls or (ret if isinstance(ret, type) and issubclass(ret, Obj) else Obj)

    def bind(a, k):
        b = signature.bind(*a, **k)
        b.apply_defaults()
        return dict(b.arguments)

    def call(stage, args):
        if hook is not None:
            return hook(stage, args)
        return None

    anns = {p.name: p.annotation for p in params if p.annotation is not P.empty}
    label = node if callable(node) else lambda args, n=node: n

    suspended = suspend if callable(suspend) else Suspend

    def finish(f, ann):
        f.__name__ = f.__qualname__ = f"{kind}_{ret if callable(node) else node}"
        f.__annotations__ = {**anns, "return": ann}
        f.__signature__ = signature.replace(return_annotation=ann)
        return f

    if kind == "cls":
        def __init__(self, *a, **k):
            args = bind(a, k)
            call("call", args)
            self.node = label(args)
            self.args = args
            self.seq = w.seq
            w.seq += 1
            w.made.append(self)
            w.log.append(("new", self.node, self))

        __init__.__annotations__ = {**anns, "return": None}
        __init__.__signature__ = inspect.Signature([P("self", PK), *params]) if not any(
            p.kind is POS for p in params
        ) else inspect.Signature([P("self", POS), *params])
        ret.__init__ = __init__
        return ret
    if kind == "fn":
        def f(*a, **k):
            args = bind(a, k)
            call("call", args)
            return w.new(label(args), args, out_cls)

        return finish(f, ret)
    if kind == "afn":
        async def f(*a, **k):
            args = bind(a, k)
            call("call", args)
            if suspend:
                await suspended()
                call("resumed", args)
            return w.new(label(args), args, out_cls)

        return finish(f, ret)
    if kind == "gen":
        def f(*a, **k):
            args = bind(a, k)
            call("call", args)
            o = w.new(label(args), args, out_cls)
            try:
                yield o
            except BaseException as e:
                w.log.append(("throw", o.node, o, e))
                if call("swallow", args) is not True:
                    raise
            finally:
                w.log.append(("fin", o.node, o))
                call("exit", args)

        return finish(f, typing.Generator[ret, None, None])
    if kind == "agen":
        async def f(*a, **k):
            args = bind(a, k)
            call("call", args)
            if suspend:
                await suspended()
                call("resumed", args)
            o = w.new(label(args), args, out_cls)
            try:
                yield o
            except BaseException as e:
                w.log.append(("throw", o.node, o, e))
                if call("swallow", args) is not True:
                    raise
            finally:
                if suspend:
                    await suspended()
                w.log.append(("fin", o.node, o))
                call("exit", args)

        return finish(f, typing.AsyncGenerator[ret, None])
    if kind == "cm":
        class CM:
            def __init__(self, args):
                self.args_ = args

            def __enter__(self):
                call("enter", self.args_)
                self.o = w.new(label(self.args_), self.args_, out_cls)
                return self.o

            def __exit__(self, t, v, tb):
                if v is not None:
                    w.log.append(("throw", self.o.node, self.o, v))
                w.log.append(("fin", self.o.node, self.o))
                call("exit", self.args_)
                return v is not None and call("swallow", self.args_) is True

        def f(*a, **k):
            args = bind(a, k)
            call("call", args)
            return CM(args)

        return finish(f, typing.ContextManager[ret])
    if kind == "acm":
        class ACM:
            def __init__(self, args):
                self.args_ = args

            async def __aenter__(self):
                call("enter", self.args_)
                if suspend:
                    await suspended()
                    call("resumed", self.args_)
                self.o = w.new(label(self.args_), self.args_, out_cls)
                return self.o

            async def __aexit__(self, t, v, tb):
                if v is not None:
                    w.log.append(("throw", self.o.node, self.o, v))
                if suspend:
                    await suspended()
                w.log.append(("fin", self.o.node, self.o))
                call("exit", self.args_)
                return v is not None and call("swallow", self.args_) is True

        def f(*a, **k):
            args = bind(a, k)
            call("call", args)
            return ACM(args)

        return finish(f, typing.AsyncContextManager[ret])
    raise AssertionError(kind)


def register(container, kind, provider, provides, **kw):
    if kind == "cls":
        container.add(provider, provides=provides, **kw)
    elif kind in ("fn", "afn"):
        container.add_factory(provider, provides=provides, **kw)
    elif kind in ("gen", "agen"):
        container.add_generator(provider, provides=provides, **kw)
    elif kind in ("cm", "acm"):
        container.add_context_manager(provider, provides=provides, **kw)
    else:
        raise AssertionError(kind)


def is_async_kind(kind):
    return kind in KINDS_ASYNC


def strict_container(**kw):
    from diwire import Container, DependencyRegistrationPolicy, MissingPolicy

    kw.setdefault("missing_policy", MissingPolicy.ERROR)
    kw.setdefault("dependency_registration_policy", DependencyRegistrationPolicy.IGNORE)
    kw.setdefault("use_resolver_context", False)
    return Container(**kw)
