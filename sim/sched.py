"""Cooperative scheduler over real threads; async faults through line events.

Simulated tasks are real threads parked and released one at a time.  A task can
only be preempted at a line boundary inside ``castep_outputs`` or at a raw I/O
event of the simulated file system; when and in favour of whom is decided by
the run's choice source, so a run replays exactly.
"""
from __future__ import annotations

import os
import sys
import threading

import _thread

from . import simfs
from .core import Ctx, HarnessError


_TARGET: dict[str, bool] = {}


def _is_target(name: str) -> bool:
    hit = _TARGET.get(name)
    if hit is None:
        hit = _TARGET[name] = "castep_outputs" in name.split(os.sep)
    return hit


def in_target(frame) -> bool:
    """Whether library code, other than in a finaliser (whenever that may run)."""
    if not _is_target(frame.f_code.co_filename):
        return False
    while frame is not None and _is_target(frame.f_code.co_filename):
        if frame.f_code.co_name == "__del__":
            return False
        frame = frame.f_back
    return True


class Scheduler:
    def __init__(self, ctx: Ctx, max_gap: int, max_switches: int = 400) -> None:
        self.ctx = ctx
        self.max_gap = max_gap
        self.budget = max_switches
        self.tasks: list[dict] = []
        self.current: int | None = None
        self.gap = 0
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.switches = 0
        self.events = 0
        self.order: list[int] = []

    def spawn(self, name: str, fn) -> None:
        self.tasks.append({"name": name, "fn": fn, "lock": _thread.allocate_lock(),
                           "alive": True, "result": None, "exc": None, "blocked": False})

    # -- called in task threads ------------------------------------------------
    def _trace(self, frame, event, _arg):
        if not in_target(frame):
            return None
        return self._local

    def _local(self, _frame, event, _arg):
        if event == "line":
            self.tick()
        return self._local

    def tick(self) -> None:
        self.events += 1
        self.gap -= 1
        if self.gap <= 0 and self.budget > 0:
            self._yield()

    def _runnable(self) -> list[int]:
        return [i for i, t in enumerate(self.tasks) if t["alive"] and not t["blocked"]]

    def _new_gap(self) -> None:
        # Mixture of very short and long slices.
        kind = self.ctx.draw(3, "gap-kind")
        span = (self.max_gap, max(2, self.max_gap // 12), 3)[kind]
        self.gap = 1 + self.ctx.draw(span, "gap")

    def _yield(self) -> None:
        me = self.current
        others = [i for i in self._runnable() if i != me]
        if not others:
            self.gap = 1 << 60
            return
        self.budget -= 1
        nxt = others[self.ctx.draw(len(others), "next-task")]
        self._new_gap()
        self._switch(me, nxt)

    def _switch(self, me, nxt) -> None:
        self.switches += 1
        self.order.append(nxt)
        self.current = nxt
        self.ctx.log(f"switch {me}->{nxt} at event {self.events}")
        self.tasks[nxt]["lock"].release()
        self.tasks[me]["lock"].acquire()

    def blocked(self) -> bool:
        """Current task waits for a simulated lock."""
        me = self.current
        others = [i for i in self._runnable() if i != me]
        if not others:
            return False
        nxt = others[self.ctx.draw(len(others), "next-task-lock")]
        self._new_gap()
        self._switch(me, nxt)
        return True

    def _body(self, i: int) -> None:
        task = self.tasks[i]
        task["lock"].acquire()
        sys.settrace(self._trace)
        try:
            task["result"] = task["fn"]()
        except BaseException as exc:  # noqa: BLE001
            task["exc"] = exc
        finally:
            sys.settrace(None)
            task["alive"] = False
            rest = self._runnable()
            if rest:
                nxt = rest[self.ctx.draw(len(rest), "after-exit")]
                self._new_gap()
                self.current = nxt
                self.order.append(nxt)
                self.ctx.log(f"exit {i}, run {nxt} at event {self.events}")
                self.tasks[nxt]["lock"].release()
            else:
                self.done.release()

    def run(self) -> None:
        for task in self.tasks:
            task["lock"].acquire()
        for i in range(len(self.tasks)):
            _thread.start_new_thread(self._body, (i,))
        simfs.CURRENT_SCHEDULER = self
        first = self.ctx.draw(len(self.tasks), "first-task")
        self._new_gap()
        self.current = first
        self.order.append(first)
        self.tasks[first]["lock"].release()
        if not self.done.acquire(timeout=90):
            raise HarnessError("simulated threads did not finish")
        simfs.CURRENT_SCHEDULER = None
        self.ctx.sim_time += self.events


class AsyncFault:
    """Raise ``exc`` at the n-th line executed inside the library."""

    def __init__(self, ctx: Ctx, at: int, exc: type[BaseException], spare=()) -> None:
        self.ctx = ctx
        #: code left alone (such as that between an ``open`` and its ``close``)
        self.spare = spare
        self.at = at
        self.exc = exc
        self.lines = 0
        self.fired = False
        self.where = None

    def _trace(self, frame, event, _arg):
        if not in_target(frame):
            return None
        return self._local

    def _local(self, frame, event, _arg):
        if event == "line" and not self.fired:
            self.lines += 1
            if self.lines >= self.at:
                if frame.f_code in self.spare:
                    return self._local
                self.fired = True
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                self.ctx.fault(f"async-{self.exc.__name__}", self.where)
                raise self.exc("injected by simulator")
        return self._local

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)


def count_lines(fn):
    """Lines executed inside the library by ``fn`` and its result."""
    n = 0

    def local(_frame, event, _arg):
        nonlocal n
        if event == "line":
            n += 1
        return local

    def trace(frame, _event, _arg):
        return local if in_target(frame) else None

    sys.settrace(trace)
    try:
        out = fn()
    finally:
        sys.settrace(None)
    return n, out


__all__ = ["AsyncFault", "Scheduler", "count_lines", "in_target", "threading"]
