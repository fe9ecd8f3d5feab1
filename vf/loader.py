"""Loads the diwire under test from /repo/src - instrumented (symbolic/concurrent) or plain.

Instrumented mode: every diwire module is parsed from /repo's current source, ``is`` / ``is not``
comparisons are rewritten to symbolic-aware helpers, and calls of the builtins ``compile``,
``exec`` and ``eval`` are routed through a wrapper that applies the same rewriting to code the
library generates at run time (the assembled resolvers).  Nothing else is changed.
"""
from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import pickle
import sys
import types

from . import symx

SRC = os.environ.get("VF_SRC", "/repo/src")
MODE = None
THREADS = ("C08", "C09")  # properties about threads: locks are made cooperative
try:
    import pydantic_settings  # noqa: F401
except ImportError:
    # stand-in for the optional dependency: diwire only looks at its base class
    _ps = types.ModuleType("pydantic_settings")
    _ps.BaseSettings = type("BaseSettings", (), {})
    sys.modules["pydantic_settings"] = _ps
EXTRA_TRANSFORM = None  # optional ast.NodeTransformer factory (concurrency instrumentation)
_seen_functions = set()


class _IsRewriter(ast.NodeTransformer):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(o, (ast.Is, ast.IsNot)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            name = "_sx_is_" if isinstance(node.ops[0], ast.Is) else "_sx_is_not_"
            return ast.copy_location(
                ast.Call(
                    func=ast.Name(id=name, ctx=ast.Load()),
                    args=[node.left, node.comparators[0]],
                    keywords=[],
                ),
                node,
            )
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("compile", "exec", "eval"):
            node.func = ast.copy_location(
                ast.Name(id=f"_sx_{node.func.id}_", ctx=ast.Load()), node.func
            )
        return node


def transform(tree):
    tree = _IsRewriter().visit(tree)
    if EXTRA_TRANSFORM is not None:
        tree = EXTRA_TRANSFORM().visit(tree)
    return _real_fix(tree)


_real_fix = ast.fix_missing_locations


_code_cache = {}


def _sx_compile(source, filename, mode, *a, **k):
    # memoised on the exact source text / AST (code objects are immutable)
    key = None
    if not a and not k:
        try:
            key = (source if isinstance(source, (str, bytes)) else pickle.dumps(source), filename, mode)
        except Exception:
            key = None
    if key is not None:
        hit = _code_cache.get(key)
        if hit is not None:
            return hit
    if isinstance(source, (str, bytes)):
        source = builtins.compile(source, filename, mode, ast.PyCF_ONLY_AST)
    if isinstance(source, ast.AST):
        source = transform(source)
    code = builtins.compile(source, filename, mode, *a, **k)
    if key is not None and len(_code_cache) < 60000:
        _code_cache[key] = code
    return code


_counters = []


def reset_process_state():
    """Give every path the provider numbering of a fresh process (class-level int counters)."""
    if not _counters:
        mod = sys.modules.get("diwire._internal.providers")
        _counters.append(None)
        for obj in list(vars(mod).values()) if mod else []:
            if isinstance(obj, type) and obj.__module__ == mod.__name__:
                for n, v in list(vars(obj).items()):
                    if type(v) is int and "COUNTER" in n.upper():
                        _counters.append((obj, n, v))
    for e in _counters[1:]:
        setattr(*e)


def _sx_exec(source, *a, **k):
    if isinstance(source, (str, bytes, ast.AST)):
        source = _sx_compile(source, "<diwire-exec>", "exec")
    if not a:
        f = sys._getframe(1)
        a = (f.f_globals, f.f_locals)
    return builtins.exec(source, *a, **k)


def _sx_eval(source, *a, **k):
    if isinstance(source, (str, bytes, ast.AST)):
        source = _sx_compile(source, "<diwire-eval>", "eval")
    if not a:
        f = sys._getframe(1)
        a = (f.f_globals, f.f_locals)
    return builtins.eval(source, *a, **k)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        tree = ast.parse(data, path)
        # "from __future__" imports stay first: we only rewrite expressions.
        return builtins.compile(transform(tree), path, "exec", dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "diwire" and not fullname.startswith("diwire."):
            return None
        base = os.path.join(SRC, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.machinery.ModuleSpec(
                fullname, _Loader(fullname, init), origin=init, is_package=True
            ) if False else importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init), submodule_search_locations=[base]
            )
        py = base + ".py"
        if os.path.isfile(py):
            return importlib.util.spec_from_file_location(fullname, py, loader=_Loader(fullname, py))
        return None


def install(mode, threads=False):
    """mode: 'sym' (instrumented) or 'plain' (unmodified source)."""
    global MODE
    if MODE is not None:
        assert MODE == mode
        return
    MODE = mode
    import importlib.util  # noqa: F401

    sys.dont_write_bytecode = True
    assert not any(m == "diwire" or m.startswith("diwire.") for m in sys.modules)
    if threads:
        from . import sched

        sched.patch()
    if mode == "plain":
        sys.path.insert(0, SRC)
    else:
        builtins._sx_is_ = symx.sym_is
        builtins._sx_is_not_ = symx.sym_is_not
        builtins._sx_compile_ = _sx_compile
        builtins._sx_exec_ = _sx_exec
        builtins._sx_eval_ = _sx_eval
        # locations are filled in by transform(); generated trees need no second pass
        ast.fix_missing_locations = lambda tree: tree
        sys.meta_path.insert(0, _Finder())
    import diwire

    assert os.path.realpath(diwire.__file__).startswith(os.path.realpath(SRC) + os.sep), diwire.__file__


def watch_functions():
    """Record (cheaply, once per code object) which functions of the code under test run."""
    mon = sys.monitoring
    tool = 4
    if mon.get_tool(tool) is None:
        mon.use_tool_id(tool, "vf")
    E = mon.events.PY_START
    src = os.path.realpath(SRC)

    def start(code, _off):
        fn = code.co_filename
        if fn.startswith(src) or fn.startswith("<diwire"):
            _seen_functions.add(
                (("generated" if fn.startswith("<") else os.path.relpath(fn, src)), code.co_qualname)
            )
        return mon.DISABLE

    mon.register_callback(tool, E, start)
    mon.set_events(tool, E)


def seen_functions():
    return set(_seen_functions)
