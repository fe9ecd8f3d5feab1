"""C25: the pytest plugin fills the Injected parameters of tests from the test's own container.

Every path writes a small test directory (a conftest, a module, perhaps a class), runs a real
pytest session in this process with diwire's plugin, and compares what the test bodies received.
"""
from __future__ import annotations

import contextlib
import inspect
import io
import os
import shutil
import sys
import tempfile
import types
import warnings
from typing import Annotated, Any

from ..core import Harness, Property
from ..world import drive, make_class

PROBE = "vf_c25_probe"
E = inspect.Parameter.empty
_warm = []


class S:
    def __init__(self, key, tag):
        self.key, self.tag = key, tag

    def __repr__(self):
        return f"<{self.key} of {self.tag}>"


class Recorder:
    """Second plugin of the session: collects reports, runs coroutine tests, runs items again."""

    def __init__(self, rerun=False):
        self.reports, self.rerun = [], rerun

    def pytest_runtest_logreport(self, report):
        self.reports.append((report.nodeid.split("::")[-1], report.when, report.outcome, report.longrepr))

    def pytest_collectreport(self, report):
        if report.failed:
            self.reports.append((report.nodeid, "collect", "failed", report.longrepr))

    def pytest_pyfunc_call(self, pyfuncitem):
        if inspect.iscoroutinefunction(pyfuncitem.obj):
            args = {a: pyfuncitem.funcargs[a] for a in pyfuncitem._fixtureinfo.argnames}
            drive(pyfuncitem.obj(**args))
            return True
        return None

    def pytest_runtest_protocol(self, item, nextitem):
        if not self.rerun:
            return None
        from _pytest.runner import runtestprotocol

        for _ in range(2):
            item._initrequest()
            runtestprotocol(item, nextitem=nextitem)
        return True


def session(files, probe, rerun=False):
    import pytest

    import diwire.integrations.pytest_plugin as plugin

    if not _warm:
        warnings.simplefilter("ignore")
        _warm.append(1)
    d = os.path.realpath(tempfile.mkdtemp(prefix="vfc25-"))
    rec = Recorder(rerun)
    mods, path, dwb = set(sys.modules), list(sys.path), sys.dont_write_bytecode
    sys.modules[PROBE] = probe
    sys.dont_write_bytecode = True
    try:
        for n, text in files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(text)
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            rec.rc = int(pytest.main(
                ["-p", "no:cacheprovider", "-p", "no:asyncio", "-p", "no:anyio", "-p", "no:hypothesispytest", "-p", "no:faulthandler", "-p", "no:terminal", "-p", "no:warnings", "-p", "no:logging", "--assert=plain", "--import-mode=importlib", "--rootdir", d, "-c", os.devnull, d],
                plugins=[plugin, rec],
            ))
        rec.out = out.getvalue()
    finally:
        sys.path[:] = path
        sys.dont_write_bytecode = dwb
        for m in set(sys.modules) - mods:
            f = getattr(sys.modules[m], "__file__", None) or ""
            if m == PROBE or f.startswith(d):
                del sys.modules[m]
        shutil.rmtree(d, ignore_errors=True)
    return rec


KEYS = ("A", "B")


def new_probe(ctx, options="strict", lifetime="scoped"):
    """What the generated files import: keys, container factory, recorder."""
    from diwire import Component, Container, DependencyRegistrationPolicy, Lifetime, MissingPolicy, ResolverContext, Scope

    p = types.ModuleType(PROBE)
    p.A, p.B, p.R, p.U = (make_class(n) for n in ("A", "B", "R", "U"))
    p.BX = Annotated[p.B, Component("x")]
    p.calls, p.log, p.containers = [], [], []

    def container(tag):
        kw = {}
        if options != "auto":
            kw.update(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)
        if options == "own-context" and tag.startswith("main"):
            kw["resolver_context"] = ResolverContext()
        if options == "no-context" and tag.startswith("main"):
            kw["use_resolver_context"] = False
        tag = f"{tag}#{sum(t.split('#')[0] == tag for t, _ in p.containers)}"
        c = Container(**kw)
        lt = {"scoped": Lifetime.SCOPED, "transient": Lifetime.TRANSIENT}[lifetime]

        def fa():
            return S("A", tag)

        def fb():
            return S("B", tag)

        def fx():
            return S("BX", tag)

        def gen():
            v = S("R", tag)
            p.log.append(("open", v))
            try:
                yield v
            finally:
                p.log.append(("close", v))

        c.add_factory(fa, provides=p.A, lifetime=lt)
        c.add_factory(fb, provides=p.B, lifetime=lt)
        c.add_factory(fx, provides=p.BX, lifetime=lt)
        c.add_generator(gen, provides=p.R, lifetime=Lifetime.SCOPED, scope=Scope.REQUEST)
        p.containers.append((tag, c))
        return c

    def body(name, args, fails=False):
        p.log.append(("body", name))
        p.calls.append((name, {k: v for k, v in args.items() if k not in ("self", "cls")}))
        if fails:
            raise ValueError("body")

    p.container, p.body = container, body
    return p


ROLES = {
    # annotation in the generated module, expected key / how to read it
    "A": ("Injected[P.A]", ("value", "A")),
    "B": ("Injected[P.B]", ("value", "B")),
    "component": ("Injected[P.BX]", ("value", "BX")),
    "annotated": ("Annotated[Injected[P.A], 'meta']", ("value", "A")),
    "maybe": ("Injected[Maybe[P.A]]", ("value", "A")),
    "maybe-missing": ("Injected[Maybe[P.U]]", ("missing", None)),
    "provider": ("Injected[Provider[P.B]]", ("call", "B")),
    "all": ("Injected[All[P.B]]", ("all", ("B", "BX"))),
    "request": ("Injected[P.R]", ("value", "R")),
    "string": ("'Injected[P.A]'", ("value", "A")),
}
HEAD = f"import functools\nimport pytest\nimport {PROBE} as P\nfrom typing import Annotated\nfrom diwire import All, AsyncProvider, Component, Container, Injected, Maybe, Provider\n"


def fixture(tag, scope, indent="", self_=False, extra=""):
    return (f"{indent}@pytest.fixture(scope={scope!r})\n{indent}def diwire_container({'self' if self_ else ''}{extra}):\n"
            f"{indent}    return P.container({tag!r})\n")


def signature(params):
    out, star = [], False
    for name, ann, ko, default in params:
        if ko and not star:
            out.append("*")
            star = True
        out.append(name + (f": {ann}" if ann else "") + (" = 'dflt'" if default else ""))
    return out


def test_def(name, form, params, fails=False, indent="", marks=()):
    """A test of the given form; its body reports its arguments."""
    ps = signature(params)
    deco = "".join(f"{indent}{m}\n" for m in marks)
    a = "async " if form.startswith("async") else ""
    if form in ("method", "async method"):
        ps = ["self", *ps]
    elif form == "classmethod":
        ps, deco = ["cls", *ps], deco + f"{indent}@classmethod\n"
    elif form == "staticmethod":
        deco += f"{indent}@staticmethod\n"
    if form == "wrapped":
        deco += f"{indent}@deco\n"
    return f"{deco}{indent}{a}def {name}({', '.join(ps)}):\n{indent}    P.body({name!r}, dict(locals()), {fails})\n"


DECO = "def deco(fn):\n    @functools.wraps(fn)\n    def inner(*a, **k):\n        return fn(*a, **k)\n    return inner\n"
FIXTURES = (
    "@pytest.fixture\ndef value():\n    return 'the value'\n"
    "@pytest.fixture\ndef p0():\n    return 'fixture p0'\n"
    "@pytest.fixture\ndef dependent(diwire_container):\n    return ('dependent', diwire_container)\n"
)
IN_CLASS = ("method", "async method", "classmethod", "staticmethod")


def layout(ctx, where, scope, others, form):
    """(conftest text, module text, class prefix, tag of the container of the test)."""
    conf, mod, cls, tag = HEAD, HEAD + DECO + FIXTURES, "", "default"
    if "conftest" in where:
        conf += fixture("main conftest", scope)
        tag = "main conftest"
    if "module" in where or (where == "class" and form not in IN_CLASS):
        mod += fixture("main module", scope)
        tag = "main module"
    if "class" in where and form in IN_CLASS:
        cls = fixture("main class", scope, "    ", True)
        tag = "main class"
    if others == "import":
        mod = mod.replace(DECO, "OTHER = P.container('other')\n" + DECO)
    elif others == "before":
        conf += f"@pytest.fixture(autouse=True, scope='session')\ndef other():\n    return P.container('other')\n"
    elif others == "after":
        mod += "@pytest.fixture(autouse=True)\ndef other(diwire_container):\n    return P.container('other')\n"
    return conf, mod, cls, tag


def judge(ctx, p, name, args, params, tag, c, cached, log_from, what):
    """The arguments one run of a test received."""
    for pname, role, _, _ in params:
        got = args.get(pname, "absent")
        if role == "fixture":
            want = {"value": "the value", "dependent": ("dependent", c), "diwire_container": c}[pname]
            ctx.check(got == want, lambda: f"{what}: fixture parameter {pname} got {got!r}")
            continue
        if role == "param":
            continue
        kind, key = ROLES[role][1]
        if kind == "missing":
            ctx.check(got is None, lambda: f"{what}: Maybe of an unregistered key got {got!r}")
            continue
        if kind == "call":
            got = got() if callable(got) else f"not a provider: {got!r}"
        vals, keys = (got, key) if kind == "all" else ((got,), (key,))
        ok = len(vals) == len(keys) and all(isinstance(v, S) and v.key == k and v.tag == tag for v, k in zip(vals, keys))
        ctx.check(ok, lambda: f"{what}: Injected parameter {pname} ({role}) got {got!r}, the test's container is {tag}")
        if ok and cached and role != "request":
            for v, k in zip(vals, keys):
                mine = c.resolve({"A": p.A, "B": p.B, "BX": p.BX}[k])
                ctx.check(mine is v, lambda: f"{what}: {pname} is not the container's cached {k}")


def call_test(ctx, forms, roles, where, scopes, others, options, lifetimes=("scoped",), n=(1,), kwonly=(False,), defaults=(False,), ordinary=("none",), order=("last",), rerun=(False,), fails=(False,), repeat=(False,), parametrize=(False,)):
    form = ctx.pick("form", list(forms))
    opt = ctx.pick("options", list(options))
    lt = ctx.pick("lifetime", list(lifetimes))
    p = new_probe(ctx, opt, lt)
    wh = ctx.pick("where", list(where))
    scope = ctx.pick("fixture scope", list(scopes))
    oth = ctx.pick("others", list(others))
    conf, mod, cls, tag = layout(ctx, wh, scope, oth, form)
    inj = []
    ko = dseen = False
    for i in range(ctx.pick("n", list(n))):
        role = ctx.pick(f"p{i}.role", list(roles))
        ko = ko or ctx.pick(f"p{i}.kwonly", list(kwonly))
        d = ctx.pick(f"p{i}.default", list(defaults))
        if dseen and not d and not ko:
            d = True
        dseen = dseen or d
        inj.append((f"p{i}", role, ko, d))
    o = ctx.pick("ordinary", list(ordinary))
    params = list(inj)
    if o != "none":
        if ctx.pick("order", list(order)) == "last":
            ord_ko = ko or dseen
            params.append((o, "fixture", ord_ko, False))
        else:
            params.insert(0, (o, "fixture", False, False))
    marks = []
    par = ctx.pick("parametrize", list(parametrize))
    if par:
        params.insert(0, ("num", "param", False, False))
        marks.append("@pytest.mark.parametrize('num', ['x', 'y'])")
    fail = ctx.pick("body fails", list(fails))
    anns = [(pn, ROLES[r][0] if r in ROLES else None, k, d) for pn, r, k, d in params]
    two = ctx.pick("two tests", list(repeat))
    names = ["test_one", "test_two"] if two else ["test_one"]
    if form in IN_CLASS:
        mod += "class TestIt:\n" + cls + "".join(test_def(x, form, anns, fail, "    ", marks) for x in names)
    else:
        mod += "".join(test_def(x, form, anns, fail, "", marks) for x in names)
    again = ctx.pick("rerun", list(rerun)) if scope == "function" else False
    rec = session({"conftest.py": conf, "test_vf.py": mod}, p, again)
    what = f"{form} test({', '.join(signature(anns))}), diwire_container in {wh} ({scope}), {opt}, other containers: {oth}"
    runs = [x for x in names for _ in range(2 if par else 1) for _ in range(2 if again else 1)]
    bad = [r for r in rec.reports if r[2] == "failed" and not (fail and r[1] == "call")]
    ctx.check(not bad, lambda: f"{what}: {bad[0][0]} {bad[0][1]} failed: {str(bad[0][3])[-400:]}")
    if bad:
        return
    ctx.check([x for x, _ in p.calls] == runs, lambda: f"{what}: bodies ran {[x for x, _ in p.calls]}, expected {runs}; {rec.out[-300:]}")
    if fail:
        f = [r for r in rec.reports if r[1] == "call"]
        ctx.check(all(r[2] == "failed" and "ValueError: body" in str(r[3]) for r in f) and len(f) == len(runs), f"{what}: the failure of the body is not what pytest reports")
    if len(p.calls) != len(runs):
        return
    mine = [c for t, c in p.containers if t.split("#")[0] == tag]
    want_n = len(runs) if scope == "function" else 1
    ctx.check(len(mine) == want_n, lambda: f"{what}: {len(mine)} containers for {len(runs)} runs of {scope}-scoped diwire_container")
    if len(mine) != want_n:
        return
    for i, (x, args) in enumerate(p.calls):
        k = i if scope == "function" else 0
        judge(ctx, p, x, args, params, f"{tag}#{k}", mine[k], lt == "scoped", 0, what)
        if par:
            ctx.check(args.get("num") in ("x", "y"), f"{what}: the parametrized argument is {args.get('num')!r}")
        ctx.check(set(args) == {q[0] for q in params}, lambda: f"{what}: the body received {args!r}")
    if par and not again:
        ctx.check([a["num"] for _, a in p.calls] == ["x", "y"] * len(names), f"{what}: parametrized values lost")
    if any(r == "request" for _, r, _, _ in params):
        want, k = [], 0
        for i in range(len(runs)):
            want += ["open", "body", "close"]
        ctx.check([e for e, _ in p.log] == want, lambda: f"{what}: scoped resource and body: {p.log!r}")
        vs = [v for e, v in p.log if e == "open"]
        ctx.check([v for e, v in p.log if e == "close"] == vs, f"{what}: another value was cleaned up")
        for (x, args), v in zip(p.calls, vs):
            ctx.check(all(args[pn] is v for pn, r, _, _ in params if r == "request"), lambda: f"{what}: {args!r} did not receive the REQUEST value of its run")
    for t, on in (("rerun", again), ("failing body", fail), ("class override", tag == "main class"), ("cleanup after the body", any(r == "request" for _, r, _, _ in params))):
        if on:
            ctx.reach(t)


def missing(ctx, forms, where, others):
    """An Injected key the test's container does not have: the test fails before its body runs."""
    form = ctx.pick("form", list(forms))
    p = new_probe(ctx)
    wh, oth = ctx.pick("where", list(where)), ctx.pick("others", list(others))
    conf, mod, cls, tag = layout(ctx, wh, "function", oth, form)
    if oth != "none":
        mod = mod.replace("P.container('other')", "P.other()")
        conf = conf.replace("P.container('other')", "P.other()")

    def other():
        c = p.container("other")
        c.add_instance(S("U", "other"), provides=p.U)
        return c

    p.other = other
    params = [("p0", "Injected[P.U]", False, False), ("p1", "Injected[P.A]", False, False)]
    if ctx.flag("default"):
        params[0] = (*params[0][:3], True)
        params[1] = (*params[1][:3], True)
    mod += ("class TestIt:\n" + cls + test_def("test_one", form, params, False, "    ")) if form in IN_CLASS else test_def("test_one", form, params)
    rec = session({"conftest.py": conf, "test_vf.py": mod}, p)
    f = [r for r in rec.reports if r[2] == "failed"]
    if params[0][3]:
        # left open: a default value for a missing dependency
        ctx.check(all(a.get("p1") == "dflt" or getattr(a["p1"], "tag", "").startswith(tag) for _, a in p.calls), lambda: f"{p.calls}")
        return
    ctx.check(not p.calls, lambda: f"{form} test ran with {p.calls!r} although its container has no such key (others: {oth})")
    ctx.check(len(f) == 1 and f[0][1] == "call" and "DIWireDependencyNotRegisteredError" in str(f[0][3]), lambda: f"{form}: reports {[r[:3] + (str(r[3])[-200:],) for r in rec.reports]}")


def mixed(ctx, forms, second):
    """Tests with and without Injected parameters in one module; helpers and plain tests are left alone."""
    form, sec = ctx.pick("form", list(forms)), ctx.pick("second", list(second))
    p = new_probe(ctx, ctx.pick("options", ["strict", "own-context"]))
    conf, mod, cls, tag = layout(ctx, ctx.pick("where", ["module", "conftest", "class"]), "function", ctx.pick("others", ["none", "after"]), form)
    params = [("p0", "Injected[P.A]", False, False)]
    inc = form in IN_CLASS
    ind = "    " if inc else ""
    me = ["self"] if inc else []
    one = test_def("test_one", form, params, False, ind)
    if sec == "plain p0":  # same parameter name, but a fixture
        two = f"{ind}def test_two({', '.join(me + ['p0'])}):\n{ind}    P.body('test_two', dict(locals()))\n"
        want = lambda a, c: a == {"p0": "fixture p0"}  # noqa: E731
    elif sec == "container":
        two = f"{ind}def test_two({', '.join(me + ['diwire_container', 'dependent'])}):\n{ind}    P.body('test_two', dict(locals()))\n"
        want = lambda a, c: a["diwire_container"] is c and a["dependent"] == ("dependent", c)  # noqa: E731
    elif sec == "helper":  # a helper with Injected parameters, called by hand
        mod += "def helper(p0: Injected[P.A] = 'by hand'):\n    return p0\n"
        two = f"{ind}def test_two({', '.join(me)}):\n{ind}    P.body('test_two', dict(got=helper()))\n"
        want = lambda a, c: a == {"got": "by hand"}  # noqa: E731
    elif sec == "mock.patch":
        two = f"{ind}@patcher\n{ind}def test_two({', '.join(me + ['extra', 'p0: Injected[P.A]'])}):\n{ind}    P.body('test_two', dict(locals()))\n"
        mod = mod.replace(DECO, DECO + "from unittest import mock\npatcher = mock.patch('os.getcwd')\n")
        want = lambda a, c: a["p0"].tag == tag + "#1" and type(a["extra"]).__name__ == "MagicMock"  # noqa: E731
    elif sec == "fails":
        two = f"{ind}def test_two({', '.join(me + ['p0: Injected[P.B]'])}):\n{ind}    P.body('test_two', dict(locals()))\n"
        one = test_def("test_one", form, params, True, ind)
        want = lambda a, c: a["p0"].tag == tag + "#1" and a["p0"].key == "B"  # noqa: E731
    first = ctx.flag("second first")
    body = (two + one) if first else (one + two)
    mod += ("class TestIt:\n" + cls + body) if inc else body
    rec = session({"conftest.py": conf, "test_vf.py": mod}, p)
    f = [r for r in rec.reports if r[2] == "failed" and not (sec == "fails" and r[0] == "test_one" and r[1] == "call")]
    ctx.check(not f, lambda: f"{form}, {sec}: {f[0][0]} {f[0][1]} failed: {str(f[0][3])[-400:]}")
    mine = [(t, c) for t, c in p.containers if t.split("#")[0] == tag]
    got = dict(p.calls)
    ctx.check(set(got) == {"test_one", "test_two"} and len(p.calls) == 2 and len(mine) == 2, lambda: f"{form}, {sec}: ran {p.calls!r}")
    if len(got) == 2 and len(mine) == 2:
        i1, i2 = (1, 0) if first else (0, 1)
        v = got["test_one"].get("p0")
        ctx.check(isinstance(v, S) and v.tag == mine[i1][0], lambda: f"{form}, {sec}: test_one got {v!r}")
        if sec in ("mock.patch", "fails"):
            v2 = got["test_two"].get("p0")
            ctx.check(isinstance(v2, S) and v2.tag == mine[i2][0], lambda: f"{form}, {sec}: test_two got {v2!r}")
        else:
            ctx.check(want(got["test_two"], mine[i2][1]), lambda: f"{form}, {sec}: test_two got {got['test_two']!r}")


def auto(ctx, forms, where, others):
    """Concrete classes nobody registered, in a container with the default policies."""
    form = ctx.pick("form", list(forms))
    p = new_probe(ctx, "auto")
    conf, mod, cls, tag = layout(ctx, ctx.pick("where", list(where)), ctx.pick("fixture scope", ["function", "module"]), ctx.pick("others", list(others)), form)
    dep = ctx.flag("dependency")
    if dep:
        p.U = make_class("U", (), {"__init__": lambda self, a: setattr(self, "a", a)})
        p.U.__init__.__annotations__ = {"a": p.A}
    params = [("p0", "Injected[P.U]", False, False), ("p1", "Injected[P.A]", False, False)]
    names = ["test_one", "test_two"]
    mod += ("class TestIt:\n" + cls if form in IN_CLASS else "") + "".join(test_def(x, form, params, False, "    " if form in IN_CLASS else "") for x in names)
    rec = session({"conftest.py": conf, "test_vf.py": mod}, p)
    bad = [r for r in rec.reports if r[2] == "failed"]
    ctx.check(not bad, lambda: f"{form}: {bad[0][0]} {bad[0][1]} failed: {str(bad[0][3])[-400:]}")
    mine = {t: c for t, c in p.containers}
    ctx.check([x for x, _ in p.calls] == names, lambda: f"{form}: ran {p.calls!r}")
    for x, a in p.calls:
        u, v = a.get("p0"), a.get("p1")
        ctx.check(type(u) is p.U and isinstance(v, S) and v.tag.startswith(tag), lambda: f"{form}: {x} got {a!r}")
        if isinstance(v, S) and type(u) is p.U:
            ctx.check(mine[v.tag].resolve(p.U) is u, lambda: f"{form}: {x}: the container's shared U is another object")
            ctx.check(not dep or (isinstance(u.a, S) and u.a.tag == v.tag), lambda: f"{form}: {x}: the value was built from {u.a!r}")


ALL_FORMS = ("function", "async function", "method", "async method", "classmethod", "staticmethod", "wrapped")
WHERE = ("conftest", "module", "class", "conftest module", "conftest module class")

PROPERTY = Property("C25", harnesses=[
    Harness("containers", lambda ctx, **kw: call_test(ctx, **kw),
            "which container fills a test's parameters: fixture layouts, other containers, resolver contexts",
            quick=dict(forms=("function", "method"), roles=("A",), where=WHERE, scopes=("function", "module"), others=("none", "import", "before", "after"), options=("strict", "own-context", "no-context")),
            thorough=dict(forms=ALL_FORMS, roles=("A",), where=WHERE, scopes=("function", "module"), others=("none", "import", "before", "after"), options=("strict", "own-context", "no-context", "auto"), rerun=(False, True)),
            reach=("class override",), path_timeout=30),
    Harness("signatures", lambda ctx, **kw: call_test(ctx, **kw),
            "test signatures: every form of test, injected parameter, kind and default, with ordinary fixtures and parametrization",
            quick=dict(forms=ALL_FORMS, roles=("A", "component", "provider", "request"), where=("class", "module"), scopes=("function",), others=("after",), options=("own-context",), kwonly=(False, True), ordinary=("value", "dependent"), order=("first", "last")),
            thorough=dict(forms=ALL_FORMS, roles=tuple(ROLES), where=("class", "module"), scopes=("function",), others=("after",), options=("own-context", "strict"), kwonly=(False, True), defaults=(False, True), ordinary=("none", "value", "dependent", "diwire_container"), order=("first", "last"), parametrize=(False, True)),
            reach=("cleanup after the body",), path_timeout=30),
    Harness("pairs", lambda ctx, **kw: call_test(ctx, **kw),
            "two injected parameters",
            quick=dict(forms=("function", "async method"), roles=tuple(ROLES), where=("conftest",), scopes=("function",), others=("before",), options=("strict",), n=(2,), ordinary=("value",)),
            thorough=dict(forms=("function", "async method", "wrapped"), roles=tuple(ROLES), where=("conftest",), scopes=("function",), others=("before",), options=("strict", "own-context"), n=(2,), kwonly=(False, True), defaults=(False, True), ordinary=("none", "value"), order=("first", "last")),
            reach=("cleanup after the body",), path_timeout=30),
    Harness("runs", lambda ctx, **kw: call_test(ctx, **kw),
            "several tests, parametrized runs, repeated runs of one item and failing bodies",
            quick=dict(forms=("function", "async function", "method"), roles=("A", "request"), where=("module",), scopes=("function", "module"), others=("after",), options=("strict",), lifetimes=("scoped", "transient"), rerun=(False, True), fails=(False, True), repeat=(False, True), parametrize=(False, True)),
            thorough=dict(forms=ALL_FORMS, roles=("A", "B", "request", "provider"), where=("module",), scopes=("function", "module"), others=("none", "after"), options=("strict",), lifetimes=("scoped", "transient"), rerun=(False, True), fails=(False, True), repeat=(False, True), parametrize=(False, True)),
            reach=("rerun", "failing body", "cleanup after the body"), path_timeout=30),
    Harness("missing", missing, "a key the test's container does not have",
            quick=dict(forms=ALL_FORMS, where=("conftest", "module", "class"), others=("none", "before", "after")),
            path_timeout=30),
    Harness("auto", auto, "classes nobody registered, under the default policies",
            quick=dict(forms=("function", "async method", "staticmethod"), where=("conftest", "class"), others=("none", "before", "after")),
            thorough=dict(forms=ALL_FORMS, where=WHERE, others=("none", "import", "before", "after")),
            path_timeout=30),
    Harness("mixed", mixed, "tests with and without injected parameters side by side",
            quick=dict(forms=("function", "method", "async function"), second=("plain p0", "container", "helper", "mock.patch", "fails")),
            thorough=dict(forms=ALL_FORMS, second=("plain p0", "container", "helper", "mock.patch", "fails")),
            path_timeout=30),
], assumptions=[
    "pytest of the verification venv; sessions run in this process, one generated directory per path; coroutine tests are run by a stub hook in the place of pytest-asyncio",
], outside=(
    "unittest.TestCase classes, third-party collectors, Injected parameters of fixtures (not supported by the plugin), parametrizing an Injected parameter (pytest rejects it)"
))
