"""Reference model of the documented resolution semantics (used as the specification).

The model is deliberately small: nodes, scope instances, handles, caches.  It predicts, for one
resolve operation, either the *shape and sharing* of the resulting object graph or the set of
admissible errors.  ``Matcher`` compares the prediction with what the real code returned.
Symbolic attributes (lifetimes) are concretised only where the prediction depends on them.
"""
from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any

from . import world as W
from .symx import conc


@dataclass
class Dep:
    name: str
    target: str | None  # node name (None: nothing registered)
    marker: str = "plain"  # plain | maybe | provider | aprovider | all | ctx | maybectx
    kind: Any = W.PK
    default: Any = W.P.empty
    key: Any = None  # annotation actually used; filled by build_graph
    all_targets: tuple = ()
    ctx_key: Any = None


@dataclass
class Node:
    name: str
    kind: str  # cls fn gen cm afn agen acm instance
    life: Any
    scope: Any  # BaseScope
    deps: list = field(default_factory=list)
    lock: Any = "auto"
    key: Any = None
    cls: type | None = None
    component: Any = None
    hook: Any = None
    out_cls: Any = None
    suspend: bool = True

    @property
    def scoped(self):
        from diwire import Lifetime

        if self.kind == "instance":
            return True
        return conc(self.life) is Lifetime.SCOPED

    @property
    def level(self):
        return 1 if self.kind == "instance" else self.scope.level

    @property
    def is_async(self):
        return self.kind in W.KINDS_ASYNC


class MErr(Exception):
    def __init__(self, kinds):
        super().__init__(str(kinds))
        self.kinds = kinds


class MObj:
    def __init__(self, node, inst):
        self.node = node
        self.inst = inst  # owning scope instance (of the provider)
        self.args = {}
        self.real = None
        self.bound = False

    def __repr__(self):
        return f"<m:{self.node.name}@{self.inst.name}>"


class MHandle:
    """Predicted Provider/AsyncProvider argument."""

    def __init__(self, target, at, is_async):
        self.target = target
        self.at = at
        self.is_async = is_async


class Inst:
    def __init__(self, level, name):
        self.level = level
        self.name = name
        self.cache = {}
        self.closed = False


class Handle:
    def __init__(self, name, level, parent=None, ctx=None, real=None):
        self.name = name
        self.level = level
        self.parent = parent
        self.inst = Inst(level, name)
        self.ctxmap = ctx
        self.real = real
        self.owned = []
        self.closed = False

    def at(self, level):
        h = self
        while h is not None:
            if h.level == level:
                return h
            h = h.parent
        return None

    def chain(self):
        h = self
        out = []
        while h is not None:
            out.append(h)
            h = h.parent
        return out


class Model:
    def __init__(self, nodes):
        self.nodes = {n.name: n for n in nodes}
        self.objs = []
        self.fuzzy = False  # an operation failed: partial effects are not predicted

    # -- static facts
    def eager(self, node):
        for d in node.deps:
            if d.marker in ("plain", "maybe") and d.target is not None:
                yield self.nodes[d.target]
            elif d.marker == "all":
                for t in d.all_targets:
                    yield self.nodes[t]

    def requires_async(self, node):
        return node.is_async or any(self.requires_async(n) for n in self.eager(node))

    def max_required(self, node):
        return max([node.level] + [self.max_required(n) for n in self.eager(node)])

    # -- where a provider runs
    def home(self, node, h):
        """Handle in whose frame the provider of `node` resolves its dependencies, or None."""
        if node.kind == "instance":
            return h.at(1)
        owner = h.at(node.level) if node.level <= h.level else None
        if owner is None:
            return None
        if node.scoped or self.max_required(node) <= node.level:
            return owner
        return h

    def owner_inst(self, node, h):
        o = h.at(node.level)
        return o.inst if o is not None else None

    def cached(self, node, h):
        if not node.scoped:
            return None
        o = self.owner_inst(node, h)
        return None if o is None else o.cache.get(node.name)

    def scope_error(self, node, h):
        home = self.home(node, h)
        if home is None:
            return True
        if self.cached(node, h) is not None:
            return False
        if node.kind == "instance":
            return False
        return any(self.scope_error(n, home) for n in self.eager(node))

    def ctx_error(self, node, h):
        """A context value that must be present is not (scope errors are asked separately)."""
        home = self.home(node, h)
        if home is None or self.cached(node, h) is not None or node.kind == "instance":
            return False
        if any(d.marker == "ctx" and self.ctx_lookup(d.ctx_key, home) is None for d in node.deps):
            return True
        return any(self.ctx_error(n, home) for n in self.eager(node))

    def errors(self, node, h, is_async):
        kinds = set()
        if self.ctx_error(node, h):
            kinds.add("notreg")
        if self.scope_error(node, h):
            kinds.add("scope")
        if not is_async and self.requires_async(node):
            kinds.add("async")
        return kinds

    # -- prediction of a successful resolve
    def value(self, node, h):
        home = self.home(node, h)
        inst = self.owner_inst(node, h)
        if node.scoped:
            m = inst.cache.get(node.name)
            if m is not None:
                return m
        m = MObj(node, inst)
        self.objs.append(m)
        if node.kind != "instance":
            for d in node.deps:
                m.args[d.name] = self.arg(d, home)
        if node.scoped:
            inst.cache[node.name] = m
        return m

    def ctx_lookup(self, key, h):
        for x in h.chain():
            if x.ctxmap is not None and key in x.ctxmap:
                return ("lit", x.ctxmap[key])
        return None

    def arg(self, d, home):
        if d.marker in ("plain", "maybe"):
            if d.target is None:
                v = d.default if d.default is not W.P.empty else None
                return ("lit", v)
            return self.value(self.nodes[d.target], home)
        if d.marker in ("provider", "aprovider"):
            return MHandle(self.nodes[d.target], home, d.marker == "aprovider")
        if d.marker == "all":
            return ("tuple", [self.value(self.nodes[t], home) for t in d.all_targets])
        if d.marker == "ctx":
            r = self.ctx_lookup(d.ctx_key, home)
            assert r is not None
            return r
        if d.marker == "maybectx":
            r = self.ctx_lookup(d.ctx_key, home)
            if r is not None:
                return r
            return ("lit", d.default if d.default is not W.P.empty else None)
        if d.marker == "default":
            return ("lit", d.default)
        raise AssertionError(d.marker)


class Matcher:
    """Checks that a real result is the predicted one, up to a one-to-one renaming of objects."""

    def __init__(self, ctx, model, w):
        self.ctx = ctx
        self.model = model
        self.w = w
        self.of_real = {}  # id(real) -> MObj

    def match(self, real, m, path, args=True):
        ck = self.ctx.check
        if isinstance(m, tuple):
            if m[0] == "lit":
                ck(real is m[1], lambda: f"{path}: got {real!r}, expected {m[1]!r}")
                return
            ck(type(real) is tuple and len(real) == len(m[1]),
               lambda: f"{path}: expected a tuple of {len(m[1])}, got {real!r}")
            for i, (r, x) in enumerate(zip(real, m[1])):
                self.match(r, x, f"{path}[{i}]", args)
            return
        if isinstance(m, MHandle):
            ck(callable(real), lambda: f"{path}: expected a provider handle, got {real!r}")
            return
        if m.bound:
            ck(real is m.real, lambda: f"{path}: expected the instance of {m.node.name} owned by "
               f"scope {m.inst.name}, got another object {real!r}")
            return
        node = getattr(real, "node", None)
        ck(node == m.node.name, lambda: f"{path}: expected a value of {m.node.name}, got {real!r}")
        other = self.of_real.get(id(real))
        ck(other is None, lambda: f"{path}: expected a fresh {m.node.name} "
           f"(scope {m.inst.name}), got the one of scope {other.inst.name}")
        m.real = real
        m.bound = True
        self.of_real[id(real)] = m
        if args and real.args is not None:
            ck(set(real.args) >= set(m.args), lambda: f"{path}: arguments {sorted(real.args)} "
               f"do not cover {sorted(m.args)}")
            for k, x in m.args.items():
                self.match(real.args[k], x, f"{path}.{k}", args)

    def counts(self):
        """Every provider ran exactly once per predicted object."""
        if self.model.fuzzy:
            return
        for n in self.model.nodes.values():
            if n.kind == "instance":
                continue
            real = sum(1 for o in self.w.made if o.node == n.name)
            want = sum(1 for m in self.model.objs if m.node is n)
            self.ctx.check(real == want, lambda: f"provider {n.name} ran {real} times, expected {want}")


def annotation(d, nodes):
    from diwire import All, AsyncProvider, FromContext, Maybe, Provider

    base = nodes[d.target].key if d.target is not None else d.key
    return {
        "plain": lambda: base,
        "maybe": lambda: Maybe[base],
        "provider": lambda: Provider[base],
        "aprovider": lambda: AsyncProvider[base],
        "all": lambda: All[d.key],
        "ctx": lambda: FromContext[d.ctx_key],
        "maybectx": lambda: Maybe[FromContext[d.ctx_key]],
        "default": lambda: W.P.empty,
    }[d.marker]()


def build_graph(ctx, w, c, nodes, order=None):
    """Registers the nodes (in `order`) in container c and returns the model."""
    byname = {n.name: n for n in nodes}
    for n in nodes:
        if n.cls is None:
            n.cls = W.make_class(n.name)
        if n.key is None:
            n.key = n.cls
    for n in order or nodes:
        register_node(w, c, n, byname)
    return Model(nodes)


def register_node(w, c, n, byname):
    kw = {}
    if n.component is not None:
        kw["component"] = n.component
    if n.kind == "instance":
        o = object.__new__(n.cls)
        o.node = n.name
        o.args = {}
        o.seq = -1
        c.add_instance(o, provides=n.cls if n.component is not None else n.key, **kw)
        return
    params = [W.param(d.name, annotation(d, byname), d.kind, d.default) for d in n.deps]
    cls = n.cls
    if n.kind == "cls" and n.out_cls is not None:
        cls = n.out_cls
    prov = W.make_provider(w, n.name, n.kind, cls, params, hook=n.hook, suspend=n.suspend)
    W.register(c, n.kind, prov, n.cls if n.component is not None else n.key,
               lifetime=n.life, scope=n.scope, lock_mode=n.lock, **kw)


def std_handles(root, Scope, which=("root", "sess", "req1", "req2", "act1", "reqx")):
    """Opens a fixed tree of scopes and returns {name: Handle}.

    root -> sess -> req1 -> act1 ; sess -> req2 ; root -> reqx (SESSION skipped) -> actx
    """
    out = {}
    H = lambda n, l, p, r: out.setdefault(n, Handle(n, l, p, None, r))  # noqa: E731
    H("root", 1, None, root)
    for n in which:
        if n == "sess":
            H("sess", 2, out["root"], root.enter_scope(Scope.SESSION))
        elif n == "req1":
            H("req1", 3, out["sess"], out["sess"].real.enter_scope(Scope.REQUEST))
        elif n == "req2":
            H("req2", 3, out["sess"], out["sess"].real.enter_scope(Scope.REQUEST))
        elif n == "act1":
            H("act1", 4, out["req1"], out["req1"].real.enter_scope(Scope.ACTION))
        elif n == "reqx":
            H("reqx", 3, out["root"], root.enter_scope(Scope.REQUEST))
        elif n == "reqy":
            H("reqy", 3, out["root"], root.enter_scope(Scope.REQUEST))
        elif n == "actx":
            H("actx", 4, out["reqx"], out["reqx"].real.enter_scope(Scope.ACTION))
    return out


def err_kind(e):
    from diwire.exceptions import (
        DIWireAsyncDependencyInSyncContextError,
        DIWireDependencyNotRegisteredError,
        DIWireScopeMismatchError,
    )

    if isinstance(e, DIWireScopeMismatchError):
        return "scope"
    if isinstance(e, DIWireAsyncDependencyInSyncContextError):
        return "async"
    if isinstance(e, DIWireDependencyNotRegisteredError):
        return "notreg"
    return f"{type(e).__name__}: {e}"


def do_resolve(h, key, is_async):
    return W.aoutcome(lambda: h.aresolve(key)) if is_async else W.outcome(lambda: h.resolve(key))


# ------------------------------------------------------------------------------------------------
# scope histories with cleanup (C04, C05, C16)

PATHS = {  # documented transitions: levels opened on the way, by (current level, target level)
    (1, 2): [2], (1, 3): [3], (1, 4): [3, 4], (1, 5): [3, 4, 5],
    (2, 3): [3], (2, 4): [3, 4], (2, 5): [3, 4, 5],
    (3, 4): [4], (3, 5): [4, 5], (4, 5): [5],
}


def open_handle(hs, name, parent, Scope, level, context=None):
    """Opens a scope below hs[parent]; implicit levels become handles without a name."""
    p = hs[parent]
    lv = PATHS[(p.level, level)]
    scope = {2: Scope.SESSION, 3: Scope.REQUEST, 4: Scope.ACTION, 5: Scope.STEP}[level]
    real = p.real.enter_scope(scope, context=context) if context is not None else p.real.enter_scope(scope)
    h = p
    owned = []
    for x in lv:
        h = Handle(name if x == level else f"{name}.{x}", x, h, context if x == level else None,
                   real if x == level else None)
        if x != level:
            owned.append(h)
    h.owned = owned
    h.closed = False
    hs[name] = h
    return h


CLEANUP_KINDS = ("gen", "cm", "agen", "acm")


class CleanupOracle:
    """Tracks which resources each scope instance holds, from what the real code acquired."""

    def __init__(self, ctx, model, mt, w):
        self.ctx, self.model, self.mt, self.w = ctx, model, mt, w
        self.kinds = {n.name: n.kind for n in model.nodes.values()}
        self.pos = 0
        self.stacks = {}
        self.done = []

    def stack(self, inst):
        return self.stacks.setdefault(id(inst), (inst, []))[1]

    def after_resolve(self, what):
        """Every new resource goes to the scope instance predicted for it; nothing is cleaned up."""
        for e in self.w.log[self.pos:]:
            if e[0] == "new":
                if self.kinds.get(e[1]) in CLEANUP_KINDS:
                    m = self.mt.of_real.get(id(e[2]))
                    self.ctx.check(m is not None, lambda: f"{what} acquired {e[2]!r} which nobody received")
                    self.stack(m.inst).append(e[2])
            else:
                self.ctx.check(False, lambda: f"{what} ran a cleanup: {e!r}")
        self.pos = len(self.w.log)

    def expect_close(self, h):
        want = list(reversed(self.stack(h.inst)))
        self.stack(h.inst).clear()
        for o in reversed(h.owned):
            want += list(reversed(self.stack(o.inst)))
            self.stack(o.inst).clear()
        return want

    def after_close(self, h, want, what):
        new = self.w.log[self.pos:]
        self.pos = len(self.w.log)
        fins = [e[2] for e in new if e[0] == "fin"]
        self.ctx.check(not any(e[0] == "new" for e in new), lambda: f"{what} ran a provider")
        self.ctx.check(len(fins) == len(want) and all(a is b for a, b in zip(fins, want)),
                       lambda: f"{what} cleaned up {fins}, expected {want}")
        self.done += fins
