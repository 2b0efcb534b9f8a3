"""Python side of the OS seam (libsim.so): clock, disk faults, processes under a token scheduler."""

from __future__ import annotations

import ctypes
import errno
import os
import pickle
import struct
import sys
import traceback
from pathlib import Path
from typing import Any, Callable

OPS = ["open", "create", "read", "write", "trunc", "rename", "unlink", "mkdir", "sync", "close", "stat"]
OPI = {n: i for i, n in enumerate(OPS)}
MUTATING = ["create", "write", "trunc", "rename", "unlink", "mkdir", "close"]
KIND = {"errno": 1, "short": 2, "crash": 3, "torn": 4, "crash_after": 5}

_lib = None


def lib() -> ctypes.CDLL:
    global _lib
    if _lib is None:
        path = os.environ.get("DST_LIBSIM", "")
        if path not in os.environ.get("LD_PRELOAD", ""):
            raise RuntimeError("libsim is not preloaded")
        _lib = ctypes.CDLL(path)
        i64, l = ctypes.c_int64, ctypes.c_long
        _lib.sim_clock.argtypes = [ctypes.c_int, i64, i64]
        _lib.sim_clock_set.argtypes = [i64]
        _lib.sim_clock_jump.argtypes = [i64, i64]
        _lib.sim_clock_now.restype = i64
        _lib.sim_clock_reads.restype = l
        _lib.sim_redirect.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
        _lib.sim_fs_prefix.argtypes = [ctypes.c_char_p]
        _lib.sim_fs_exclude.argtypes = [ctypes.c_int, ctypes.c_char_p]
        _lib.sim_fs_fault.argtypes = [ctypes.c_int, ctypes.c_uint, l, l, l]
        _lib.sim_fs_fired.restype = l
        _lib.sim_fs_count.restype = l
        _lib.sim_fs_quota.argtypes = [l]
        _lib.sim_fs_quota_hits.restype = l
        _lib.sim_fs_log_buf.restype = ctypes.c_void_p
        _lib.sim_fs_log_len.restype = l
    return _lib


# ------------------------------------------------------------------ clock
def clock(now_ns: int, tick_ns: int = 0, jumps: list | None = None) -> None:
    """Simulated wall clock: every read returns `now` and advances it by `tick`; jumps = [[nth_read, delta_ns]]."""
    lib().sim_clock(1, int(now_ns), int(tick_ns))
    for at, by in jumps or []:
        lib().sim_clock_jump(int(at), int(by))


def clock_set(now_ns: int) -> None:
    lib().sim_clock_set(int(now_ns))


def clock_now() -> int:
    return lib().sim_clock_now()


def clock_reads() -> int:
    return lib().sim_clock_reads()


def redirect(old: Any, new: Any) -> None:
    """Let every file-system call below path `old` act on `new` instead (None, None: forget all)."""
    lib().sim_redirect(None if old is None else str(old).encode(), None if new is None else str(new).encode())


def clock_off() -> None:
    lib().sim_clock(0, 0, 0)


# ------------------------------------------------------------------- disk
class Disk:
    """Fault plan on one directory tree.

    plan: list of dicts {kind: errno|short|crash|torn|crash_after, ops: [..], nth, count, arg}
          or {kind: "quota", bytes: n}
    """

    def __init__(self, root: Path | str, plan: list | None = None, *, log: bool = False) -> None:
        self.root = str(root)
        self.plan = plan or []
        self.ids: list = []
        self.log = log

    def __enter__(self) -> "Disk":
        L = lib()
        L.sim_fs_reset()
        L.sim_fs_prefix(self.root.encode())
        self.ids = []
        for f in self.plan:
            if f["kind"] == "quota":
                L.sim_fs_quota(int(f["bytes"]))
                self.ids.append(-1)
                continue
            mask = 0
            for o in f["ops"]:
                mask |= 1 << OPI[o]
            arg = f.get("arg", 0)
            if isinstance(arg, str):
                arg = getattr(errno, arg)
            self.ids.append(
                L.sim_fs_fault(KIND[f["kind"]], mask, int(f.get("nth", 0)), int(f.get("count", 1)), int(arg))
            )
        L.sim_fs_log(1 if self.log else 0)
        L.sim_fs_enable(1)
        return self

    def __exit__(self, *_: Any) -> None:
        lib().sim_fs_enable(0)

    def fired(self) -> list[tuple[str, int]]:
        out = []
        for f, i in zip(self.plan, self.ids):
            n = lib().sim_fs_quota_hits() if i < 0 else lib().sim_fs_fired(i)
            name = f["kind"] if f["kind"] != "errno" else str(f.get("arg"))
            if f["kind"] == "quota":
                name = "disk_full_quota"
            out.append((name, n))
        return out

    @staticmethod
    def count(op: str | None = None) -> int:
        return lib().sim_fs_count(-1 if op is None else OPI[op])

    @staticmethod
    def trace() -> list[str]:
        n = lib().sim_fs_log_len()
        return ctypes.string_at(lib().sim_fs_log_buf(), n).decode(errors="replace").splitlines() if n else []


# ---------------------------------------------------------------- processes
class Result:
    """Outcome of a simulated process."""

    def __init__(self, status: str, value: Any = None, fired: list | None = None, trace: list | None = None, ops: dict | None = None) -> None:
        self.status = status  # ok | exc | died
        self.value = value  # return value | (type name, message, traceback, in_repo)
        self.fired = fired or []
        self.trace = trace or []
        self.ops = ops or {}  # system calls on the tree, per kind

    def __repr__(self) -> str:
        v = self.value if self.status != "exc" else self.value[:2]
        return f"<{self.status} {str(v)[:200]}>"


def _silence() -> None:
    dn = os.open("/dev/null", os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)


def describe_exc(e: BaseException) -> tuple:
    frames = traceback.extract_tb(e.__traceback__)
    in_repo = any("/repo/" in f.filename for f in frames)
    own = [f"{Path(f.filename).name}:{f.name}" for f in frames if "/repo/" in f.filename]
    where = own[-1] if own else ""
    return (type(e).__name__, str(e)[:500], "".join(traceback.format_exception(e))[-3000:], in_repo, where)


def _child_body(fn: Callable, args: tuple, root: str | None, plan: list | None, clk: tuple | None, wfd: int, log: bool) -> None:
    res: tuple
    disk = None
    try:
        if clk is not None:
            clock(*clk)
        if root is not None:
            disk = Disk(root, plan, log=log)
            disk.__enter__()
        try:
            res = ("ok", fn(*args))
        except BaseException as e:  # noqa: BLE001
            res = ("exc", describe_exc(e))
    finally:
        if root is not None:
            lib().sim_fs_enable(0)
    fired = disk.fired() if disk else []
    trace = disk.trace() if disk and log else []
    try:
        blob = pickle.dumps((*res, fired, trace, {o: Disk.count(o) for o in OPS}))
    except Exception as e:  # noqa: BLE001
        blob = pickle.dumps(("exc", ("HarnessPickle", repr(e), "", False, ""), fired, trace, 0))
    view = memoryview(struct.pack("<Q", len(blob)) + blob)
    while view:
        n = os.write(wfd, view)
        view = view[n:]


def _read_all(fd: int) -> bytes:
    out = b""
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            return out
        out += b


def _decode(raw: bytes, status: int) -> Result:
    if len(raw) >= 8:
        n = struct.unpack("<Q", raw[:8])[0]
        if len(raw) - 8 == n:
            s, v, fired, trace, ops = pickle.loads(raw[8:])
            return Result(s, v, fired, trace, ops)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77:
        return Result("died")
    return Result("killed", f"status={status}")


def process(fn: Callable, *args: Any, root: Path | str | None = None, plan: list | None = None, clk: tuple | None = None, log: bool = False) -> Result:
    """Run fn(*args) as a separate process under a disk fault plan; it may die at any system call."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            _silence()
            _child_body(fn, args, str(root) if root is not None else None, plan, clk, w, log)
        except BaseException:  # noqa: BLE001
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    raw = _read_all(r)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return _decode(raw, st)


class Node:
    def __init__(self, name: str, fn: Callable, args: tuple = (), plan: list | None = None, clk: tuple | None = None) -> None:
        self.name, self.fn, self.args, self.plan, self.clk = name, fn, args, plan, clk
        self.result: Result | None = None


def interleave(nodes: list[Node], root: Path | str, pick: Callable[[list[str], int], Any], *, max_steps: int = 100_000) -> tuple[list, int]:
    """Run several processes over one directory; at every system call on it `pick` decides who goes next.

    pick(names_of_runnable, step) -> name to run next, or ("kill", name) to let that process die here.
    Returns (schedule, steps).
    """
    pipes = []
    for _ in nodes:
        pipes.append((os.pipe(), os.pipe(), os.pipe()))  # out, in, result
    pids = []
    for k, nd in enumerate(nodes):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                for j, (o, i, rs) in enumerate(pipes):
                    for fd in (*o, *i, *rs):
                        if j == k and fd in (o[1], i[0], rs[1]):
                            continue
                        os.close(fd)
                _silence()
                o, i, rs = pipes[k]
                os.write(o[1], b"\xff")  # parked at start
                c = os.read(i[0], 1)
                if c != b"G":
                    os._exit(77)
                lib().sim_sched(o[1], i[0])
                _child_body(nd.fn, nd.args, str(root), nd.plan, nd.clk, rs[1], False)
            except BaseException:  # noqa: BLE001
                code = 70
            finally:
                os._exit(code)
        pids.append(pid)
    for o, i, rs in pipes:
        os.close(o[1])
        os.close(i[0])
        os.close(rs[1])
    state = {}
    raw = {}
    for k, nd in enumerate(nodes):
        os.read(pipes[k][0][0], 1)
        state[nd.name] = "ready"
    idx = {nd.name: k for k, nd in enumerate(nodes)}
    schedule = []
    step = 0

    def reap(k: int) -> None:
        raw_k = _read_all(pipes[k][2][0])
        _, st = os.waitpid(pids[k], 0)
        nodes[k].result = _decode(raw_k, st)
        state[nodes[k].name] = "done"

    while step < max_steps:
        runnable = [n.name for n in nodes if state[n.name] == "ready"]
        if not runnable:
            break
        choice = pick(runnable, step)
        kill = isinstance(choice, tuple)
        name = choice[1] if kill else choice
        k = idx[name]
        schedule.append(("X" if kill else "") + name)
        step += 1
        os.write(pipes[k][1][1], b"X" if kill else b"G")
        b = os.read(pipes[k][0][0], 1)
        if not b:
            reap(k)
    for k, nd in enumerate(nodes):
        if state[nd.name] != "done":
            os.kill(pids[k], 9)
            reap(k)
            nd.result = Result("stuck")
        for fd in (pipes[k][0][0], pipes[k][1][1], pipes[k][2][0]):
            os.close(fd)
    return schedule, step


# ------------------------------------------------------------- fault planning
WRITE_FAULTS = ["crash", "crash", "torn", "torn", "crash_after", "ENOSPC", "EIO", "quota"]
LEGAL_FAULTS = ["short", "EINTR"]


def gen_fault(rng: Any, kinds: list[str]) -> dict:
    """A disk fault at a relative position of the operation it will disturb (see place())."""
    return {"k": rng.choice(kinds), "pos": rng.random(), "cnt": rng.choice([1, 1, 3, -1]), "arg": rng.randrange(1, 999)}


def place(f: dict, ops: dict) -> dict:
    """Turn a relative fault into a concrete one, given the system-call counts of an undisturbed execution."""
    k = f["k"]
    if k == "torn":
        mask = ["write"]
    elif k in ("crash", "crash_after"):
        mask = MUTATING
    elif k == "ENOSPC":
        mask = ["create", "write", "mkdir"]
    elif k == "EIO":
        mask = ["write", "trunc", "close"]
    elif k == "EIO-read":
        mask = ["read", "open"]
    elif k in ("short", "EINTR"):
        mask = ["write", "read"]
    elif k in ("EACCES", "EROFS"):
        mask = ["create", "mkdir", "open"]
    elif k == "quota":
        return {"kind": "quota", "bytes": int(f["pos"] ** 2 * 150_000)}
    else:
        raise ValueError(k)
    n = sum(ops.get(o, 0) for o in mask)
    nth = int(f["pos"] * max(1, n))
    if k == "torn":
        return {"kind": "torn", "ops": mask, "nth": nth, "count": 1, "arg": f["arg"]}
    if k in ("crash", "crash_after"):
        return {"kind": k, "ops": mask, "nth": nth, "count": 1}
    if k == "short":
        return {"kind": "short", "ops": mask, "nth": nth, "count": 5, "arg": f["arg"]}
    return {"kind": "errno", "ops": mask, "nth": nth, "count": 1 if k == "EINTR" else f["cnt"], "arg": k.split("-")[0]}
