"""Threads under a solver-chosen schedule, for the real (unmodified or instrumented) code.

Real Python threads run one at a time and hand over a baton.  Hand-over is possible at *scheduling
points*: before every bytecode of the code under test that reads or writes an attribute which the
current source changes after construction (found by scanning it), before ``getattr``/``setattr`` with
computed names, before every lock acquisition, and where a provider of the harness says so.  Points
are found on the running code with ``sys.monitoring``, so they are the same in the instrumented and
in the plain code.  Which point is the i-th preemption is a symbolic integer ``s<i>``; the thread
that continues is a symbolic choice too.  At most ``preempt`` preemptions happen per schedule;
switches at the end of a thread or when it blocks on a lock are free.

Locks of ``threading`` created while ``armed`` are cooperative: a thread that would wait is not
runnable, and when nobody is runnable the schedule ends with the threads it left waiting.
"""
from __future__ import annotations

import ast
import _thread
import dis
import gc
import os
import re
import sys
import threading

from . import loader

_REAL = {"Lock": threading.Lock, "RLock": threading.RLock, "_allocate_lock": threading._allocate_lock}
MUTATORS = {"append", "pop", "setdefault", "update", "clear", "extend", "insert", "remove", "discard", "add", "popitem", "appendleft", "popleft"}
_armed = None
_active = None
MAX = 4000


class Abort(BaseException):
    """Ends a thread of an abandoned schedule."""


class Stuck(Exception):
    """A lock nobody will ever release was acquired outside a schedule."""


# ------------------------------------------------------------------------------------------ locks


class CoopLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = self._me()
        if s is not None and s.is_worker(me):
            s.point("lock")
            while self.owner is not None and not (self.reentrant and self.owner == me):
                if not blocking or timeout >= 0:
                    return False
                s.block(self)
        elif self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            raise Stuck("a lock is still held although no thread runs")
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != self._me()):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True

    def _is_owned(self):
        return self.owner == self._me()

    def _release_save(self):
        n, self.count, self.owner = self.count, 0, None
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n


def _coop():
    me = threading.get_ident()
    return me == _armed or (_active is not None and _active.is_worker(me))


def patch():
    """Make ``threading``'s locks cooperative where the harness creates them (before diwire is imported)."""
    threading.Lock = threading._allocate_lock = lambda: CoopLock() if _coop() else _REAL["Lock"]()
    threading.RLock = lambda: CoopRLock() if _coop() else _REAL["RLock"]()


class armed:
    """Locks the calling thread creates are cooperative."""

    def __enter__(self):
        global _armed
        _armed = threading.get_ident()

    def __exit__(self, *exc):
        global _armed
        _armed = None


# ---------------------------------------------------------------------------------- what is shared


def _prefix(node):
    """Constant text an f-string starts with (None when it is no f-string with one)."""
    if isinstance(node, ast.JoinedStr) and node.values and isinstance(node.values[0], ast.Constant):
        return node.values[0].value
    return None


class _Names(ast.NodeVisitor):
    def __init__(self):
        self.names = set()
        self.prefixes = set()
        self.fn = []

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.generic_visit(node)
        self.fn.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def _late(self):
        return bool(self.fn) and self.fn[-1] not in ("__init__", "__post_init__", "__new__")

    def visit_Attribute(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)) and self._late():
            self.names.add(node.attr)
        self.generic_visit(node)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)) and self._late() and isinstance(node.value, ast.Attribute):
            self.names.add(node.value.attr)
        self.generic_visit(node)

    def visit_Assign(self, node):
        self.generic_visit(node)
        # names of attributes kept in constants, e.g. cache_attr = f"_cache_{slot}"
        p = _prefix(node.value)
        if p and p.isidentifier():
            self.prefixes.add(p)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS and isinstance(f.value, ast.Attribute) and self._late():
            self.names.add(f.value.attr)
        if isinstance(f, ast.Name) and f.id in ("getattr", "setattr", "delattr") and len(node.args) > 1:
            a = node.args[1]
            p = _prefix(a)
            if p:
                self.prefixes.add(p)
            if f.id != "getattr" and isinstance(a, ast.Constant):
                self.names.add(a.value)
        self.generic_visit(node)

    def visit_Constant(self, node):
        # attribute assignments in the source text of generated code
        if isinstance(node.value, str):
            for m in re.finditer(r"\w+\.(\w+) = ", node.value):
                self.names.add(m.group(1)) if not m.group(1).endswith("_") else self.prefixes.add(m.group(1))


_shared = None
# set on objects that no other thread can see yet
PRIVATE = {"_runtime", "_class_plan", "class_by_level", "arguments", "kwargs", "owner", "obj", "orelse", "scope_name", "_cleanup_enabled"}
_dynamic = {}  # file -> lines where getattr/setattr may touch one of the shared names


def dynamic_lines(path):
    hit = _dynamic.get(path)
    if hit is None:
        names, prefixes = shared_names()
        hit = set()
        for n in ast.walk(ast.parse(open(path).read())):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "setattr", "delattr") and len(n.args) > 1:
                a = n.args[1]
                if not isinstance(a, ast.Constant) or a.value in names:
                    hit.add(n.func.lineno)
        _dynamic[path] = hit
    return hit


def shared_names():
    global _shared
    if _shared is None:
        v = _Names()
        for d, _, fs in os.walk(os.path.join(loader.SRC, "diwire")):
            for f in sorted(fs):
                if f.endswith(".py"):
                    v.visit(ast.parse(open(os.path.join(d, f)).read()))
        names = {n for n in v.names if not n.startswith("__")} - PRIVATE
        _shared = (frozenset(names), tuple(sorted(p for p in v.prefixes if len(p) > 2)))
    return _shared


_codes = {}
_ATTR_OPS = {"LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "LOAD_METHOD"}
SKIP_FILES = ()


def points_of(code):
    """Offsets of the scheduling points of a code object."""
    hit = _codes.get(id(code))
    if hit is not None:
        return hit[1]
    src = os.path.realpath(loader.SRC) + os.sep
    fn = code.co_filename
    own = fn.startswith(src) or fn.startswith("<diwire") or fn.startswith("<")
    out = set()
    if own and code.co_name not in ("__init__", "__post_init__", "<module>") and not fn.endswith(SKIP_FILES or ("\0",)):
        names, prefixes = shared_names()
        for i in dis.get_instructions(code):
            n = i.argval
            if i.opname in _ATTR_OPS:
                if n in names or (n.startswith(prefixes) and n[-1:].isdigit()):
                    out.add(i.offset)
            elif i.opname == "LOAD_GLOBAL" and n in ("getattr", "setattr", "delattr"):
                if fn.startswith("<") or i.positions.lineno in dynamic_lines(fn):
                    out.add(i.offset)
    out = frozenset(out)
    _codes[id(code)] = (code, out)
    return out


_mon = False


def _instr(code, offset):
    if offset not in points_of(code):
        return sys.monitoring.DISABLE
    s = _active
    if s is not None and not s.paused and s.current_ident == threading.get_ident():
        s.point((code, offset))
    return None


def _monitor():
    global _mon
    if not _mon:
        _mon = True
        m = sys.monitoring
        m.use_tool_id(3, "vf-sched")
        m.register_callback(3, m.events.INSTRUCTION, _instr)
        m.set_events(3, m.events.INSTRUCTION)


# -------------------------------------------------------------------------------------- scheduler


class _Worker:
    def __init__(self, n, fn):
        self.n = n
        self.fn = fn
        self.gate = _REAL["Lock"]()
        self.gate.acquire()
        self.ident = None
        self.waiting = None
        self.done = False
        self.outcome = ("blocked", None)

    def runnable(self):
        if self.done:
            return False
        w = self.waiting
        return w is None or w.owner is None


class Sched:
    def __init__(self, ctx, preempt, tag="s", start=None):
        self.ctx = ctx
        self.left = preempt
        self.tag = tag
        self.step = 0
        self.n = 0
        self.workers = []
        self.current = None
        self.current_ident = None
        self.main = _REAL["Lock"]()
        self.main.acquire()
        self.aborting = False
        self.paused = False
        self.error = None
        self.start = start
        self.log = []
        self.sym = None
        self.points = 0
        self.choices = 0

    # -- called in worker threads
    def is_worker(self, ident):
        return self.current_ident == ident and not self.paused

    def _others(self):
        return [w for w in self.workers if w is not self.current and w.runnable()]

    def point(self, what=None):
        if self.aborting:
            raise Abort
        self.points += 1
        if not self.left:
            return
        others = self._others()
        if not others:
            return
        self.step += 1
        self.paused = True
        try:
            if self.sym is None:
                self.sym = self.ctx.counter(f"{self.tag}{self.n}", self.step, MAX)
            if self.step >= MAX:
                raise RuntimeError("more scheduling points than the bound allows")
            if not self.ctx.reached(self.sym, self.step):
                return
            self.left -= 1
            to = self._choose(others)
            self.sym = None
            self.n += 1
        finally:
            self.paused = False
        self.log.append((self.current.n, to.n, what))
        self._switch(to)

    def _choose(self, options):
        if len(options) == 1:
            return options[0]
        self.choices += 1
        return options[self.ctx.pick(f"{self.tag}to{self.choices}", list(range(len(options))))]

    def _switch(self, to):
        me = self.current
        self._go(to)
        me.gate.acquire()
        if self.aborting:
            raise Abort

    def _go(self, to):
        self.current = to
        if to is None:
            self.current_ident = None
            self.main.release()
        else:
            self.current_ident = to.ident
            to.gate.release()

    def block(self, lock):
        if self.aborting:
            raise Abort
        me = self.current
        me.waiting = lock
        others = self._others()
        if others:
            self.paused = True
            try:
                to = self._choose(others)
            finally:
                self.paused = False
            self.log.append((me.n, to.n, "blocked"))
        else:
            to = None
        self._switch(to)
        me.waiting = None

    def _run(self, w):
        w.gate.acquire()
        w.ident = threading.get_ident()
        self.current_ident = w.ident
        try:
            if self.aborting:
                raise Abort
            w.outcome = ("ok", w.fn())
        except Abort:
            pass
        except Exception as e:  # noqa: BLE001
            w.outcome = ("exc", e)
        except BaseException as e:  # engine control flow, for the main thread
            if self.error is None:
                self.error = e
        w.done = True
        if self.aborting or self.error is not None:
            self._go(None)
            return
        others = self._others()
        to = None
        if others:
            self.paused = True
            try:
                to = self._choose(others)
            except BaseException as e:
                self.error = e
            finally:
                self.paused = False
            self.log.append((w.n, to.n if to else None, "ended"))
        self._go(to)

    # -- called by the harness
    def run(self, fns):
        """Run the functions in threads under a solver-chosen schedule; returns their outcomes."""
        global _active
        _monitor()
        self.workers = [_Worker(i, f) for i, f in enumerate(fns)]
        gc.disable()
        _active = self
        try:
            for w in self.workers:
                _thread.start_new_thread(self._run, (w,))
            first = self.workers[0] if self.start is not None else self._choose(self.workers)
            if self.start is not None:
                first = self.workers[self.start]
            self._go(first)
            self.main.acquire()
        finally:
            self.aborting = True
            for w in self.workers:
                # every thread that is not done waits at its gate
                if not w.done:
                    self.current = w
                    w.gate.release()
                    if not self.main.acquire(timeout=5):
                        break
            _active = None
            gc.enable()
        if self.error is not None:
            raise self.error
        return [w.outcome for w in self.workers]


def point(what="provider"):
    s = _active
    if s is not None and s.is_worker(threading.get_ident()):
        s.point(what)
