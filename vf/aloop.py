"""A minimal asyncio event loop whose environment is a solver choice.

Ready callbacks run in asyncio's order (FIFO, one batch per turn).  What the environment does between
two turns - complete an external operation, start or cancel a task - is picked by the caller, so that
one symbolic run stands for every schedule of a real asyncio program with that many external events.
asyncio's own Task, Future and Lock are used unchanged.
"""
from __future__ import annotations

import asyncio
from collections import deque


class Loop(asyncio.AbstractEventLoop):
    def __init__(self):
        self.ready = deque()
        self.external = []  # (task, label, future): operations the environment will complete
        self.errors = []

    # the part of the interface that Task, Future and Lock use
    def call_soon(self, callback, *args, context=None):
        h = asyncio.Handle(callback, args, self, context)
        self.ready.append(h)
        return h

    call_soon_threadsafe = call_soon

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        return asyncio.Task(coro, loop=self, name=name, context=context)

    def get_debug(self):
        return False

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def time(self):
        return 0.0

    def call_exception_handler(self, context):
        self.errors.append(context)

    # environment
    def operation(self, label):
        """An awaitable external operation (I/O, a timer): suspends until the environment completes it."""
        f = self.create_future()
        self.external.append((asyncio.current_task(self), label, f))
        return f

    def pending(self):
        self.external = [e for e in self.external if not e[2].done()]
        return self.external

    def turn(self):
        asyncio._set_running_loop(self)
        try:
            for _ in range(len(self.ready)):
                h = self.ready.popleft()
                if not h._cancelled:
                    h._run()
        finally:
            asyncio._set_running_loop(None)

    def finish(self, coro):
        """Run one coroutine to its end, completing every operation at once."""
        t = self.create_task(coro)
        self.settle()
        return t

    def settle(self):
        while self.ready or self.pending():
            while self.ready:
                self.turn()
            for _, _, f in self.pending()[:1]:
                f.set_result(None)


def result(task):
    """('ok', value) | ('exc', error) | ('cancelled', None) | ('pending', None)"""
    if not task.done():
        return ("pending", None)
    if task.cancelled():
        return ("cancelled", None)
    e = task.exception()
    return ("exc", e) if e is not None else ("ok", task.result())
