"""Deterministic thread scheduler: real threads, one running at a time, preempted only at lines (or byte-codes) of the code under test."""

from __future__ import annotations

import _thread
import os
import sys
import threading
import traceback
from importlib.util import find_spec
from typing import Any, Callable

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
CURRENT: "Sched | None" = None


class Stop(BaseException):
    pass


class SimLock:
    """threading.Lock / RLock that gives way to the scheduler instead of blocking the process."""

    def __init__(self, *, re: bool = False) -> None:
        self._l = _real_lock()
        self._re = re
        self._owner: int | None = None
        self._n = 0

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = _thread.get_ident()
        if self._re and self._owner == me:
            self._n += 1
            return True
        s = CURRENT
        if s is None or s.me() is None:
            ok = self._l.acquire(blocking, timeout)
        else:
            ok = self._l.acquire(False)
            while not ok and blocking and timeout is not None:
                if timeout >= 0:
                    break  # simulated time passes at once
                s.block(self)
                ok = self._l.acquire(False)
        if ok:
            self._owner, self._n = me, 1
        return ok

    def release(self) -> None:
        if self._re:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._n -= 1
            if self._n:
                return
        self._owner = None
        self._l.release()

    def locked(self) -> bool:
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *_: Any) -> None:
        self.release()

    def _at_fork_reinit(self) -> None:
        self._l = _real_lock()
        self._owner, self._n = None, 0

    # what threading.Condition wants of an RLock
    def _is_owned(self) -> bool:
        return self._owner == _thread.get_ident()


def patch_locks() -> None:
    """Locks made from here on give way to the scheduler; call before importing the code under test."""
    threading.Lock = lambda: SimLock()  # type: ignore[assignment,misc]
    threading.RLock = lambda: SimLock(re=True)  # type: ignore[assignment,misc]


def code_under_test() -> tuple:
    """Folders of the packages whose lines are preemption points."""
    found = []
    for name in ("shepherd_core", "shepherd_data"):
        spec = find_spec(name)
        if spec is not None and spec.origin:
            found.append(os.path.dirname(os.path.realpath(spec.origin)) + os.sep)
    return tuple(found)


class Sched:
    """pre: list of [gap, choice]: after `gap` further preemption points the `choice`-th runnable thread continues."""

    def __init__(self, pre: list, *, opcodes: bool = False, prefix: str = "", max_points: int = 2_000_000) -> None:
        self.pre = [list(x) for x in pre]
        self.opcodes = opcodes
        self.prefix = tuple(filter(None, [prefix])) or code_under_test()
        self.max_points = max_points
        self.points = 0
        self.switches = 0
        self.trace: list = []
        self._names: dict[int, str] = {}
        self._gap = self.pre[0][0] if self.pre else None
        self.clock = 0  # logical time: one tick per observable event

    # -- used by threads
    def me(self) -> str | None:
        return self._names.get(_thread.get_ident())

    def now(self) -> int:
        self.clock += 1
        return self.clock

    def _tracer(self, frame: Any, event: str, _arg: Any) -> Any:
        co = frame.f_code
        if not co.co_filename.startswith(self.prefix) or co.co_name == "<module>":
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame: Any, event: str, _arg: Any) -> Any:
        if event in ("line", "opcode"):
            self.points += 1
            if self._gap is not None:
                if self.points > self.max_points:
                    self._gap = None
                elif self._gap <= 0:
                    _, choice = self.pre.pop(0)
                    self._gap = self.pre[0][0] if self.pre else None
                    self._switch(choice, f"{frame.f_code.co_name}:{(frame.f_lineno or frame.f_code.co_firstlineno) - frame.f_code.co_firstlineno}")
                else:
                    self._gap -= 1
        return self._local

    def _switch(self, choice: int, where: str = "") -> None:
        me = self.me()
        run = [n for n in self.order if self.state[n] == "ready"]
        nxt = run[choice % len(run)]
        if nxt == me:
            return
        self.switches += 1
        self.trace.append(f"{me}@{where}->{nxt}")
        self.go[nxt].release()
        self.go[me].acquire()
        if self.abort:
            raise Stop

    def block(self, lock: SimLock) -> None:
        me = self.me()
        self.blocked[me] = lock
        self.state[me] = "blocked"
        self._hand_over()
        self.go[me].acquire()
        if self.abort:
            raise Stop
        self.blocked.pop(me, None)

    def _hand_over(self) -> None:
        for n, l in list(self.blocked.items()):
            if not l.locked():
                self.state[n] = "ready"
        run = [n for n in self.order if self.state[n] == "ready"]
        if run:
            self.go[run[0]].release()
        elif any(s == "blocked" for s in self.state.values()):
            self.deadlock = True
            self.abort = True
            for n, s in self.state.items():
                if s == "blocked":
                    self.state[n] = "ready"
                    self.go[n].release()
                    break
            else:
                self.done.release()
        else:
            self.done.release()

    def run(self, fns: dict[str, Callable[[], Any]]) -> dict[str, tuple]:
        """Run all functions to their end; {name: ("ok", value) | ("exc", exception, text)}."""
        global CURRENT
        self.order = list(fns)
        self.state = {n: "ready" for n in fns}
        self.blocked: dict[str, SimLock] = {}
        self.go = {n: _real_lock() for n in fns}
        for g in self.go.values():
            g.acquire()
        self.done = _real_lock()
        self.done.acquire()
        self.abort = False
        self.deadlock = False
        out: dict[str, tuple] = {}

        def body(name: str, fn: Callable[[], Any]) -> None:
            self._names[_thread.get_ident()] = name
            self.go[name].acquire()
            try:
                if not self.abort:
                    sys.settrace(self._tracer)
                    try:
                        v = fn()
                    finally:
                        sys.settrace(None)
                    out[name] = ("ok", v)
            except Stop:
                out[name] = ("stopped", None)
            except BaseException as e:  # noqa: BLE001
                out[name] = ("exc", e, "".join(traceback.format_exception(e)))
            self.state[name] = "done"
            self._names.pop(_thread.get_ident(), None)
            self._hand_over()

        CURRENT = self
        try:
            for n, f in fns.items():
                _thread.start_new_thread(body, (n, f))
            self.go[self.order[0]].release()
            self.done.acquire()
        finally:
            CURRENT = None
        return out
