"""C24: missing keys follow the configured policy; nothing else is registered and nothing is overwritten."""
from __future__ import annotations

import abc
import datetime
import decimal
import importlib
import inspect
import pathlib
import types
import uuid
from typing import Annotated, Generic, NamedTuple, Protocol, TypeVar

from ..core import Harness, Property
from ..world import aoutcome, outcome

T = TypeVar("T")


class Leaf:
    """A kind of key: whether autoregistration may register it, and what registering it means."""

    def __init__(self, key, eligible, settings=False, fails=False):
        self.key, self.eligible, self.settings, self.fails = key, eligible, settings, fails


def build_class(name, deps, bases=(), meta=type, style="init"):
    """A concrete class taking its dependencies in one of the documented ways."""
    if style == "dataclass":
        import dataclasses

        return dataclasses.make_dataclass(name, [(f"d{i}", d) for i, d in enumerate(deps)], bases=bases)
    ns = {}
    if deps:
        def __init__(self, *args, **kw):
            b = sig.bind(self, *args, **kw)
            for k, v in list(b.arguments.items())[1:]:
                setattr(self, k, v)

        sig = inspect.Signature([inspect.Parameter("self", inspect.Parameter.POSITIONAL_OR_KEYWORD)]
                                + [inspect.Parameter(f"d{i}", inspect.Parameter.KEYWORD_ONLY if style == "kwonly" else inspect.Parameter.POSITIONAL_OR_KEYWORD, annotation=d) for i, d in enumerate(deps)])
        __init__.__signature__ = sig
        __init__.__annotations__ = {f"d{i}": d for i, d in enumerate(deps)}
        ns["__init__"] = __init__
    return meta(name, bases, ns)


def leaf(kind):
    from diwire import Component

    base = {"path": pathlib.PurePosixPath, "date": datetime.date, "datetime": datetime.datetime, "time": datetime.time, "timedelta": datetime.timedelta, "uuid": uuid.UUID, "decimal": decimal.Decimal}
    if kind == "plain":
        return Leaf(build_class("Plain", ()), True)
    if kind in base:
        return Leaf(base[kind], False)
    if kind.endswith(" subclass") and kind[:-9] in base:
        return Leaf(build_class("Sub", (), bases=(base[kind[:-9]],)), False)
    if kind == "int":
        return Leaf(int, False)
    if kind == "str":
        return Leaf(str, False)
    if kind in ("int subclass", "str subclass", "dict subclass"):
        # constructors of these have no signature to take dependencies from
        return Leaf(build_class("Num", (), bases=({"i": int, "s": str, "d": dict}[kind[0]],)), True, fails=True)
    if kind == "exception":
        return Leaf(build_class("Err", (), bases=(Exception,)), True, fails=True)
    if kind == "namedtuple":
        return Leaf(NamedTuple("NT", []), True)
    if kind == "abstract":
        class Abstract(abc.ABC):
            @abc.abstractmethod
            def f(self): ...

        return Leaf(Abstract, False)
    if kind == "concrete of abstract":
        class Abstract2(abc.ABC):
            @abc.abstractmethod
            def f(self): ...

        class Impl(Abstract2):
            def f(self): ...

        return Leaf(Impl, True)
    if kind == "protocol":
        class Proto(Protocol):
            def f(self): ...

        Proto.f.__isabstractmethod__ = True
        abc.update_abstractmethods(Proto)
        return Leaf(Proto, False)
    if kind == "metaclass":
        return Leaf(build_class("Meta", (), bases=(type,)), False)
    if kind == "component":
        return Leaf(Annotated[build_class("Comp", ()), Component("a")], False)
    if kind == "alias":
        return Leaf(types.new_class("Gen", (Generic[T],))[int], False)
    if kind == "list alias":
        return Leaf(list[int], False)
    if kind == "union":
        return Leaf(build_class("U1", ()) | build_class("U2", ()), False)
    if kind == "settings":
        return Leaf(build_class("Settings", (), bases=(importlib.import_module("pydantic_settings").BaseSettings,)), True, settings=True)
    if kind == "uninferable":
        class Unknown:
            def __init__(self, x):
                self.x = x

        return Leaf(Unknown, True, fails=True)
    raise AssertionError(kind)


LEAVES = ["plain", "int", "str", "int subclass", "str subclass", "dict subclass", "exception", "namedtuple", "abstract", "concrete of abstract", "protocol", "metaclass", "component", "alias", "list alias", "union", "settings", "uninferable",
          "path", "date", "datetime", "time", "timedelta", "uuid", "decimal", "path subclass", "date subclass", "datetime subclass", "timedelta subclass", "uuid subclass", "decimal subclass"]


def giving(obj):
    def make():
        return obj

    return make


class Entry:
    def __init__(self, level, life, deps, value=None):
        self.level, self.life, self.deps, self.value = level, life, deps, value


class Model:
    """The documented policy: which keys are registered, how, and what resolving one must give."""

    def __init__(self, ctx, lf, style):
        self.ctx, self.lf = ctx, lf
        D2 = lf.key
        D1 = build_class("D1", (D2,), style=style)
        N = build_class("N", (D1,), style=style)
        self.K = {"N": N, "D1": D1, "D2": D2, "M": build_class("M", ()), "F": build_class("F", ())}
        self.DEPS = {"N": ("D1",), "D1": ("D2",), "D2": (), "M": (), "F": ("D1",)}
        self.reg = {}

    def eligible(self, k):
        return {"N": True, "D1": True, "M": True, "F": False}.get(k, self.lf.eligible)

    def auto(self, k, level, life, recursive):
        """Register k the way autoregistration does; False when registering it fails."""
        if k in self.reg or not self.eligible(k):
            return True
        if k == "D2" and self.lf.fails:
            return False
        if k == "D2" and self.lf.settings:
            self.reg[k] = Entry(1, "SCOPED", ())
            return True
        self.reg[k] = Entry(level, life, self.DEPS[k])
        if recursive:
            for d in self.DEPS[k]:
                self.auto(d, level, life, True)
        return True

    def problem(self):
        """A registered key with a dependency that is not makes the whole graph unusable."""
        return "missing" if any(d not in self.reg for e in self.reg.values() for d in e.deps) else None

    def required(self, k):
        return max([self.reg[k].level, *[self.required(d) for d in self.reg[k].deps]])

    def feasible(self, k, level):
        """Whether the scopes open at level allow building k."""
        e = self.reg[k]
        if e.level > level:
            return False
        at = e.level if e.life == "SCOPED" or self.required(k) <= e.level else level
        return all(self.feasible(d, at) for d in e.deps)

    def right(self, k, v):
        e = self.reg[k]
        if e.value is not None:
            return v is e.value
        if not isinstance(v, getattr(self.K[k], "__origin__", self.K[k])):
            return False
        return all(self.right(d, getattr(v, f"d{i}")) for i, d in enumerate(e.deps))

    def judge(self, what, r, k, level, ignore_problem=False):
        """Compare the outcome of resolving k from a handle at level with the model."""
        p = None if ignore_problem else self.problem()
        if p is not None:
            want = p
        elif k not in self.reg:
            want = "missing"
        elif not self.feasible(k, level):
            want = "scope"
        else:
            want = None
        ctx, reg = self.ctx, self.reg
        if want is None:
            ctx.check(r[0] == "ok" and self.right(k, r[1]), lambda: f"{what}: gave {r!r} with {sorted(reg)} registered")
        else:
            ctx.check(r[0] == "exc", lambda: f"{what}: gave {r!r} although {'a dependency is missing' if p else 'it is not registered' if k not in reg else 'its scope is not open'} ({sorted(reg)} registered)")
            ctx.check(kind_of(r[1]) == want, lambda: f"{what}: raised {r[1]!r}, expected a {want} error ({sorted(reg)} registered)")

    def complete(self, c):
        """Register an instance for every dependency that is missing."""
        while True:
            missing = {d for e in self.reg.values() for d in e.deps if d not in self.reg}
            if not missing:
                return
            for d in sorted(missing):
                obj = object()
                c.add_instance(obj, provides=self.K[d])
                self.reg[d] = Entry(1, "SCOPED", (), obj)

    def preregister(self, c, pre):
        from diwire import DependencyRegistrationPolicy, Lifetime, Scope

        if pre == "none":
            return
        k, _, how = pre.partition(" ")
        obj = object()
        if how == "instance":
            c.add_instance(obj, provides=self.K[k])
        else:
            c.add_factory(giving(obj), provides=self.K[k], scope=getattr(Scope, how), lifetime=Lifetime.SCOPED, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)
        self.reg[k] = Entry({"instance": 1, "APP": 1, "REQUEST": 3}[how], "SCOPED", (), obj)


def kind_of(e):
    from diwire.exceptions import DIWireDependencyNotRegisteredError, DIWireError, DIWireScopeMismatchError

    return "missing" if isinstance(e, DIWireDependencyNotRegisteredError) else "scope" if isinstance(e, DIWireScopeMismatchError) else "diwire" if isinstance(e, DIWireError) else "other"


def policies(ctx, steps, ops, leaves, styles, missing, dep_policies, lifes, pres, overrides, apis, forms, keys, scopes=("APP", "REQUEST")):
    """A history of resolutions and registrations; after each, exactly the keys of the model are registered."""
    from diwire import Component, Container, DependencyRegistrationPolicy, Lifetime, MissingPolicy, Provider, Scope
    from diwire.exceptions import DIWireError

    lf = leaf(ctx.pick("leaf", leaves))
    m = Model(ctx, lf, ctx.pick("style", styles))
    K, DEPS, reg = m.K, m.DEPS, m.reg
    mp = ctx.pick("missing", missing)
    dp = ctx.pick("deps policy", dep_policies)
    dl = ctx.pick("default lifetime", lifes)
    c = Container(missing_policy=getattr(MissingPolicy, mp), dependency_registration_policy=getattr(DependencyRegistrationPolicy, dp), default_lifetime=getattr(Lifetime, dl), use_resolver_context=False)

    def probe(after):
        for k in keys:
            m.judge(f"after {after}: resolve({k}, ERROR)", outcome(lambda: c.resolve(K[k], on_missing=MissingPolicy.ERROR)), k, 1)

    m.preregister(c, ctx.pick("pre", pres))
    history = []

    for i in range(steps):
        op = ctx.pick(f"op{i}", ops)
        verb, _, k = op.partition(" ")
        if verb in ("resolve", "handle"):
            ov = ctx.pick(f"on_missing{i}", overrides) if verb == "resolve" else "from_container"
            form = ctx.pick(f"form{i}", forms)
            api = ctx.pick(f"api{i}", apis)
            key = {"plain": K[k], "meta": Annotated[K[k], "m"], "provider": Provider[K[k]], "comp": Annotated[K[k], Component("zz")]}[form]
            what = f"{'; '.join(history)}: {verb}({form} {k}, on_missing={ov}) {api}"
            history.append(f"{verb} {form} {k} {ov}")
            if verb == "handle":
                h = outcome(lambda: c.enter_scope(Scope.REQUEST))
                if h[0] == "exc":
                    ctx.check(m.problem() is not None, lambda: f"{what}: enter_scope raised {h[1]!r}")
                    continue
                h = h[1]
                r = aoutcome(lambda: h.aresolve(key)) if api == "async" else outcome(lambda: h.resolve(key))
                level = 3
            else:
                level = 1
                pol = mp if ov == "from_container" else ov
                broken = m.problem()
                before = dict(reg)
                failed = False
                if pol != "ERROR" and broken is None and form != "comp" and k not in reg:
                    failed = not m.auto(k, 1, dl, pol == "REGISTER_RECURSIVE")
                    if reg != before:
                        ctx.reach("autoregistered")
                kw = {} if ov == "from_container" else {"on_missing": getattr(MissingPolicy, ov)}
                r = aoutcome(lambda: c.aresolve(key, **kw)) if api == "async" else outcome(lambda: c.resolve(key, **kw))
                if failed:
                    ctx.reach("failed")
                    ctx.check(r[0] == "exc" and isinstance(r[1], DIWireError), lambda: f"{what}: gave {r!r}")
                    probe(what)
                    continue
            if form == "comp":
                ctx.check(r[0] == "exc" and kind_of(r[1]) == "missing", lambda: f"{what}: gave {r!r}")
            elif form == "provider":
                if r[0] == "ok":
                    ctx.check(m.problem() is None, lambda: f"{what}: gave a handle although the graph cannot be used")
                    m.judge(what + " called", outcome(r[1]), k, level)
                else:
                    m.judge(what, r, k, level)
            else:
                m.judge(what, r, k, level)
        elif verb in ("add", "factory", "instance"):
            if verb == "instance":
                history.append(op)
                obj = object()
                c.add_instance(obj, provides=K[k])
                reg[k] = Entry(1, "SCOPED", (), obj)
                probe("; ".join(history))
                continue
            ov = ctx.pick(f"override{i}", ["from_container", *dep_policies])
            sc = ctx.pick(f"scope{i}", scopes)
            level = {"APP": 1, "REQUEST": 3}[sc]
            kw = {} if ov == "from_container" else {"dependency_registration_policy": getattr(DependencyRegistrationPolicy, ov)}
            pol = dp if ov == "from_container" else ov
            life = ctx.pick(f"life{i}", lifes)
            history.append(f"{op} {sc} {life} {ov}")
            what = "; ".join(history)
            before = set(reg)
            if verb == "add":
                if k == "D2" and not (lf.eligible and not lf.fails):
                    ctx.assume(False)
                c.add(K[k], scope=getattr(Scope, sc), lifetime=getattr(Lifetime, life), **kw)
                reg[k] = Entry(level, life, DEPS[k])
                if pol == "REGISTER_RECURSIVE":
                    for d in DEPS[k]:
                        m.auto(d, level, life, True)
            else:
                # F is provided by a factory asking for D1
                def make(d0):
                    f = K["F"]()
                    f.d0 = d0
                    return f

                make.__annotations__ = {"d0": K["D1"]}
                c.add_factory(make, provides=K["F"], scope=getattr(Scope, sc), lifetime=getattr(Lifetime, life), **kw)
                reg["F"] = Entry(level, life, ("D1",))
                if pol == "REGISTER_RECURSIVE":
                    m.auto("D1", level, life, True)
            if set(reg) - before - {k, "F"}:
                ctx.reach("dependencies registered")
        probe("; ".join(history))
    what = "; ".join(history)
    # complete the graph with the missing dependencies, and look at every key
    m.complete(c)
    probe(what + "; completed")
    if m.problem() is not None:
        return
    h = c.enter_scope(Scope.REQUEST)
    h2 = c.enter_scope(Scope.REQUEST)
    for k in keys:
        r = outcome(lambda: h.resolve(K[k]))
        m.judge(f"{what}; completed: request handle: {k}", r, k, 3)
        if r[0] == "ok" and reg[k].value is None:
            again, other = h.resolve(K[k]), h2.resolve(K[k])
            e = reg[k]
            want = (e.life == "SCOPED", e.life == "SCOPED" and e.level == 1)
            got = (again is r[1], other is r[1])
            ctx.check(got == want, lambda: f"{what}: {k} is the same object again / in another request: {got}, a {e.life} value of scope level {e.level} gives {want}")



def bound(ctx, steps, ops, leaves, missing, lifes, pres, overrides, apis, entered, unbind):
    """Resolution through a container whose resolver context has a bound handle; the handle was compiled before."""
    from diwire import Container, Lifetime, MissingPolicy, ResolverContext, Scope
    from diwire.exceptions import DIWireError

    lf = leaf(ctx.pick("leaf", leaves))
    m = Model(ctx, lf, "init")
    K, reg = m.K, m.reg
    mp, dl = ctx.pick("missing", missing), ctx.pick("default lifetime", lifes)
    c = Container(missing_policy=getattr(MissingPolicy, mp), default_lifetime=getattr(Lifetime, dl), resolver_context=ResolverContext())
    m.preregister(c, ctx.pick("pre", pres))
    known = set(reg)
    how = ctx.pick("entered", entered)
    h = c if how == "container" else c.enter_scope(Scope.REQUEST)
    level = 1 if how == "container" else 3
    h.__enter__()
    history = [how]
    for i in range(steps):
        k = ctx.pick(f"op{i}", ops)
        ov = ctx.pick(f"on_missing{i}", overrides)
        api = ctx.pick(f"api{i}", apis)
        pol = mp if ov == "from_container" else ov
        history.append(f"{k} {ov} {api}")
        what = " ".join(history)
        # a handle that is already open keeps the registrations it was opened with
        ctx.assume(k not in reg or k in known or pol != "ERROR")
        failed = False
        if k not in known and pol != "ERROR":
            before = set(reg)
            failed = not m.auto(k, 1, dl, pol == "REGISTER_RECURSIVE")
            if set(reg) != before:
                ctx.reach("autoregistered")
        kw = {} if ov == "from_container" else {"on_missing": getattr(MissingPolicy, ov)}
        r = aoutcome(lambda: c.aresolve(K[k], **kw)) if api == "async" else outcome(lambda: c.resolve(K[k], **kw))
        if failed:
            ctx.check(r[0] == "exc" and isinstance(r[1], DIWireError), lambda: f"{what}: gave {r!r}")
        else:
            m.judge(what, r, k, level if k in known else 1, ignore_problem=k in known)
    if ctx.pick("unbind", unbind) == "yes":
        h.__exit__(None, None, None)
        what = " ".join(history)
        for k in ("N", "D1", "D2", "M"):
            m.judge(f"{what}; left: resolve({k}, ERROR)", outcome(lambda: c.resolve(K[k], on_missing=MissingPolicy.ERROR)), k, 1)


def injection(ctx, leaves, keys, missing, dep_policies, overrides, lifes, pres, scopes, late, apis):
    """Decorating a callable registers its injected dependencies only when the dependency policy says so."""
    from diwire import Container, DependencyRegistrationPolicy, Injected, Lifetime, MissingPolicy, ResolverContext, Scope
    from diwire.exceptions import DIWireInvalidRegistrationError

    lf = leaf(ctx.pick("leaf", leaves))
    m = Model(ctx, lf, "init")
    K, reg = m.K, m.reg
    k = ctx.pick("key", keys)
    mp, dp, dl = ctx.pick("missing", missing), ctx.pick("deps policy", dep_policies), ctx.pick("default lifetime", lifes)
    ov, sc = ctx.pick("override", overrides), ctx.pick("scope", scopes)
    when = ctx.pick("decorated", late)
    api = ctx.pick("api", apis)
    rc = ResolverContext()
    kw = {} if ov == "from_container" else {"dependency_registration_policy": getattr(DependencyRegistrationPolicy, ov)}
    if sc != "infer":
        kw["scope"] = getattr(Scope, sc)
    pre = ctx.pick("pre", pres)

    def make():
        c = Container(missing_policy=getattr(MissingPolicy, mp), dependency_registration_policy=getattr(DependencyRegistrationPolicy, dp), default_lifetime=getattr(Lifetime, dl), resolver_context=rc)
        m.preregister(c, pre)
        return c

    if api == "sync":
        def f(d):
            return d
    else:
        async def f(d):
            return d
    f.__annotations__ = {"d": Injected[K[k]]}
    if when == "after":
        c = make()
    g = outcome(lambda: rc.inject(**kw)(f))
    if when == "before":
        c = make()
    what = f"inject({k}, scope={sc}, {ov}) decorated {when} the container ({api})"
    pol = dp if ov == "from_container" else ov
    level = {"infer": 1, "APP": 1, "REQUEST": 3}[sc]
    before = set(reg)
    if pol == "REGISTER_RECURSIVE":
        m.auto(k, level, dl, True)
        if set(reg) != before:
            ctx.reach("registered by injection")
    broken = any(d not in reg for e in reg.values() for d in e.deps)

    def need(x):
        return max([reg[x].level, *[need(d) for d in reg[x].deps if d in reg]]) if x in reg else 1

    too_deep = sc != "infer" and need(k) > level
    if when == "after" and too_deep:
        ctx.check(g[0] == "exc" and isinstance(g[1], DIWireInvalidRegistrationError), lambda: f"{what}: {g!r} although {k} needs a deeper scope")
        return
    ctx.check(g[0] == "ok", lambda: f"{what}: raised {g[1]!r}")
    for _ in range(2):
        r = aoutcome(lambda: g[1]()) if api == "async" else outcome(lambda: g[1]())
        if too_deep:
            ctx.check(r[0] == "exc", lambda: f"{what}: calling it gave {r!r}")
            return
        m.judge(f"{what}: calling it", r, k, max(level, need(k)))
    for x in ("N", "D1", "D2", "M"):
        m.judge(f"{what}: afterwards resolve({x}, ERROR)", outcome(lambda: c.resolve(K[x], on_missing=MissingPolicy.ERROR)), x, 1)
    m.complete(c)
    h = c.enter_scope(Scope.REQUEST)
    for x in ("N", "D1", "D2", "M"):
        r = outcome(lambda: h.resolve(K[x]))
        m.judge(f"{what}: completed: {x}", r, x, 3)


MISSING = ["ERROR", "REGISTER_ROOT", "REGISTER_RECURSIVE"]
DEPS = ["IGNORE", "REGISTER_RECURSIVE"]
PROPERTY = Property(
    "C24",
    [
        Harness("policies", policies, "histories of resolutions (4 policies each), registrations with overrides, scopes and lifetimes, scope handles; 3 keys depending on each other; every key looked at after every step",
                quick=dict(steps=2, ops=["resolve N", "resolve D1", "resolve D2", "handle N", "add N", "factory F", "instance D1"], leaves=["plain", "int"], styles=["init"],
                           missing=["ERROR", "REGISTER_RECURSIVE"], dep_policies=DEPS, lifes=["SCOPED", "TRANSIENT"], pres=["none", "D1 instance"],
                           overrides=["from_container", "REGISTER_ROOT", "ERROR"], apis=["sync"], forms=["plain"], keys=["N", "D1", "D2", "M", "F"]),
                thorough=dict(steps=3, ops=["resolve N", "resolve D1", "handle N", "add N", "factory F", "instance D1"], scopes=("APP",), leaves=["plain", "int"], styles=["init"],
                              missing=MISSING, dep_policies=DEPS, lifes=["SCOPED"], pres=["none", "D1 instance", "D2 APP", "D1 REQUEST"],
                              overrides=["from_container", "REGISTER_ROOT", "REGISTER_RECURSIVE"], apis=["sync"], forms=["plain"], keys=["N", "D1", "D2", "F"]),
                reach=("autoregistered", "dependencies registered")),
        Harness("eligible", policies, "31 kinds of key (also as dependency and dependency of a dependency), 4 key forms, both APIs, 3 styles of class",
                quick=dict(steps=1, ops=["resolve N", "resolve D1", "resolve D2", "handle D2", "add N", "factory F"], leaves=LEAVES, styles=["init", "dataclass"], missing=MISSING, dep_policies=DEPS, lifes=["TRANSIENT"],
                           pres=["none", "D2 instance"], overrides=["from_container", "REGISTER_RECURSIVE"], apis=["sync", "async"], forms=["plain", "meta", "provider", "comp"], keys=["N", "D1", "D2"], scopes=("APP",)),
                thorough=dict(steps=1, ops=["resolve N", "resolve D1", "resolve D2", "handle D2", "add N", "add D1", "factory F"], leaves=LEAVES, styles=["init", "kwonly"], missing=MISSING, dep_policies=DEPS, lifes=["SCOPED"],
                              pres=["none", "D2 REQUEST", "D1 instance"], overrides=["from_container", "ERROR", "REGISTER_ROOT"], apis=["sync", "async"], forms=["plain", "meta", "provider", "comp"], keys=["N", "D1", "D2"], scopes=("APP", "REQUEST")),
                reach=("autoregistered", "failed", "dependencies registered")),
        Harness("bound", bound, "histories of 3 resolutions while a scope handle or the container is entered",
                quick=dict(steps=3, ops=["N", "D1", "D2", "M"], leaves=["plain", "int"], missing=MISSING, lifes=["SCOPED"], pres=["none", "D1 instance", "M REQUEST"],
                           overrides=["from_container", "REGISTER_ROOT"], apis=["sync"], entered=["scope", "container"], unbind=["yes"]),
                thorough=dict(steps=3, ops=["N", "D1", "D2", "M"], leaves=["plain", "int", "uninferable", "settings"], missing=MISSING, lifes=["SCOPED"], pres=["none", "D1 instance", "D2 APP", "M REQUEST"],
                              overrides=["from_container", "ERROR", "REGISTER_ROOT"], apis=["sync"], entered=["scope", "container"], unbind=["yes"]),
                reach=("autoregistered",)),
        Harness("injection", injection, "3 keys, dependency policy of the container and of the call, 3 scopes, decorated before or after the container was made, sync and async",
                quick=dict(leaves=["plain", "int", "uninferable", "settings"], keys=["N", "D1", "D2"], missing=MISSING, dep_policies=DEPS, overrides=["from_container", *DEPS], lifes=["SCOPED", "TRANSIENT"],
                           pres=["none", "D1 instance", "D2 APP", "D2 REQUEST"], scopes=["infer", "APP", "REQUEST"], late=["after", "before"], apis=["sync", "async"]),
                thorough=dict(leaves=LEAVES, keys=["N", "D1", "D2"], missing=MISSING, dep_policies=DEPS, overrides=["from_container", *DEPS], lifes=["SCOPED"],
                              pres=["none", "D1 instance", "D1 REQUEST", "D2 REQUEST"], scopes=["infer", "APP", "REQUEST"], late=["after", "before"], apis=["sync", "async"]),
                reach=("registered by injection",)),
    ],
    assumptions=["pydantic_settings, which is not installed next to the solver, is a module with the base class only; a key is registered when resolving it under the error policy does not report it missing"],
    outside=["Maybe, All and FromContext dependencies", "keys that match an open registration", "concurrent resolutions", "a key decorated or registered while its handle is open, under the error policy (open handles keep the registrations they were opened with)",
             "the callable injected first inside an open scope although it was decorated before the container existed"],
)
