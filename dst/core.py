"""Simulation kernel: seeds, isolated runs, search, minimisation, replay files, evidence."""

from __future__ import annotations

import copy
import ctypes
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path
from typing import Any

from . import sim

VERIF = Path(__file__).resolve().parent.parent
RUN_CPU_S = 90  # CPU budget of one simulated run (typical: < 1 s)
RUN_WALL_S = 240
RUN_MEM = 3 << 30  # address space of one run


class Violation(Exception):
    def __init__(self, key: str, msg: str) -> None:
        super().__init__(f"{key}: {msg}")
        self.key, self.msg = key, msg


class HarnessError(Exception):
    pass


def seed_int(*parts: Any) -> int:
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "big")


class Ctx:
    """What a run may record. Nothing here draws randomness or reads a clock."""

    def __init__(self, scratch: Path) -> None:
        self.scratch = scratch
        self.events: list[str] = []
        self.faults: Counter = Counter()
        self.probes: Counter = Counter()
        self.states: set = set()
        self.sim_ns = 0
        self.steps = 0

    def ev(self, *a: Any) -> None:
        self.events.append(" ".join(str(x) for x in a))

    def fault(self, kind: str, n: int = 1) -> None:
        if n:
            self.faults[kind] += n

    def probe(self, name: str, n: int = 1) -> None:
        self.probes[name] += n

    def state(self, *a: Any) -> None:
        self.states.add(hashlib.sha256(repr(a).encode()).hexdigest()[:12])

    def simtime(self, ns: float) -> None:
        self.sim_ns += int(ns)

    def check(self, cond: Any, key: str, msg: Any = "") -> None:
        if not cond:
            raise Violation(key, msg() if callable(msg) else str(msg))

    def absorb(self, res: Any) -> None:
        """Count the faults a simulated process met."""
        for k, n in res.fired:
            self.fault(k, n)
        if res.status == "died":
            self.fault("process_death")


def scratch_base() -> Path:
    b = os.environ.get("DST_SCRATCH")
    if b:
        return Path(b)
    return Path(tempfile.gettempdir())


# ------------------------------------------------------------------ one run
def _run_inner(mod: Any, scenario: dict, scratch: Path) -> dict:
    import gc

    ctx = Ctx(scratch)
    viol = None
    err = None
    try:
        mod.run(copy.deepcopy(scenario), ctx)
    except Violation as v:
        viol = {"key": v.key, "msg": v.msg}
    except HarnessError as e:
        err = "".join(traceback.format_exception(e))
    except BaseException as e:  # noqa: BLE001
        frames = traceback.extract_tb(e.__traceback__)
        own = [f"{Path(f.filename).name}:{f.name}" for f in frames if "/repo/" in f.filename]
        txt = "".join(traceback.format_exception(e))[-4000:]
        if own:
            viol = {"key": f"unexpected-{type(e).__name__}@{own[-1]}", "msg": txt[-1500:]}
        elif isinstance(e, (LookupError, ValueError, TypeError, AttributeError, ArithmeticError)):
            # the check went through what the code left behind, and it isn't of the expected form at all
            here = [f"{Path(f.filename).name}:{f.name}" for f in frames if "/verif/dst" in f.filename or "/dst/checks/" in f.filename]
            viol = {"key": f"unexpected-form-{type(e).__name__}@{here[-1] if here else '?'}", "msg": txt[-1500:]}
        else:
            err = txt
    gc.enable()
    if viol:
        ctx.ev("VIOLATION", viol["key"])
    return {
        "viol": viol,
        "err": err,
        "digest": hashlib.sha256("\n".join(ctx.events).encode()).hexdigest()[:16],
        "n_events": len(ctx.events),
        "events": ctx.events if len(ctx.events) <= 400 else ctx.events[:300] + ["..."] + ctx.events[-99:],
        "faults": dict(ctx.faults),
        "probes": dict(ctx.probes),
        "states": list(ctx.states)[:2000],
        "sim_ns": ctx.sim_ns,
        "steps": ctx.steps,
    }


def run_isolated(mod: Any, scenario: dict) -> dict:
    """Execute one scenario in a forked process with its own scratch directory."""
    base = scratch_base()
    scratch = Path(tempfile.mkdtemp(prefix="run_", dir=base))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            ctypes.CDLL(None).prctl(1, int(signal.SIGKILL))  # end with the parent
            resource.setrlimit(resource.RLIMIT_CPU, (RUN_CPU_S, RUN_CPU_S + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (RUN_MEM, RUN_MEM))
            dn = os.open("/dev/null", os.O_RDWR)
            os.dup2(dn, 0)
            if not os.environ.get("DST_DEBUG"):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            work = scratch / "w"
            work.mkdir()
            os.chdir(work)
            (scratch / "x").mkdir()  # each run has a cache directory of its own
            sim.redirect(os.environ.get("XDG_CACHE_HOME", "/nonexistent"), scratch / "x")
            res = _run_inner(mod, scenario, work)
            blob = pickle.dumps(res)
            view = memoryview(struct.pack("<Q", len(blob)) + blob)
            while view:
                n = os.write(w, view)
                view = view[n:]
        except BaseException:  # noqa: BLE001
            if os.environ.get("DST_DEBUG"):
                traceback.print_exc()
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    raw = b""
    t_end = time.monotonic() + RUN_WALL_S
    timeout = False
    while True:
        left = t_end - time.monotonic()
        if left <= 0:
            timeout = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timeout = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        raw += b
    os.close(r)
    if timeout:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)  # stray grand-children
    except (ProcessLookupError, PermissionError):
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if len(raw) >= 8 and len(raw) - 8 == struct.unpack("<Q", raw[:8])[0]:
        return pickle.loads(raw[8:])
    blank = {"viol": None, "err": None, "digest": "", "n_events": 0, "events": [], "faults": {}, "probes": {}, "states": [], "sim_ns": 0, "steps": 0}
    if timeout:
        blank["viol"] = {"key": "no-progress", "msg": f"run did not end within {RUN_WALL_S} s (typical < 1 s)"}
    elif os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig in (signal.SIGXCPU, signal.SIGKILL) and sig == signal.SIGXCPU:
            blank["viol"] = {"key": "no-progress", "msg": f"run used more than {RUN_CPU_S} s of CPU (typical < 1 s)"}
        elif sig == signal.SIGKILL:
            blank["err"] = "run was killed from outside (memory?)"
        else:
            blank["viol"] = {"key": f"process-killed-by-signal-{sig}", "msg": "the process crashed"}
    else:
        blank["err"] = f"run ended without a result (status {st})"
    return blank


# ---------------------------------------------------------------- minimisation
def minimise(mod: Any, scenario: dict, key: str, *, budget_s: float = 90, max_runs: int = 300) -> tuple[dict, int]:
    t_end = time.monotonic() + budget_s
    runs = 0

    def fails(s: dict) -> bool:
        nonlocal runs
        if runs >= max_runs or time.monotonic() > t_end:
            return False
        runs += 1
        r = run_isolated(mod, s)
        return bool(r["viol"]) and r["viol"]["key"] == key

    cur = copy.deepcopy(scenario)
    changed = True
    while changed and runs < max_runs and time.monotonic() < t_end:
        changed = False
        for name in getattr(mod, "SHRINK", ["ops", "faults", "sched"]):
            path = name.split(".")
            tgt: Any = cur
            for p in path:
                tgt = tgt.get(p) if isinstance(tgt, dict) else None
            if not isinstance(tgt, list):
                continue
            n = 1
            lst = tgt
            size = max(1, len(lst) // 2)
            while size >= 1 and lst:
                i = 0
                while i < len(lst):
                    cand = copy.deepcopy(cur)
                    sub: Any = cand
                    for p in path[:-1]:
                        sub = sub[p]
                    sub[path[-1]] = lst[:i] + lst[i + size:]
                    if fails(cand):
                        cur = cand
                        lst = sub[path[-1]]
                        changed = True
                    else:
                        i += size
                size //= 2
            del n
        simp = getattr(mod, "simplify", None)
        if simp is not None:
            progress = True
            while progress and runs < max_runs and time.monotonic() < t_end:
                progress = False
                for cand in simp(copy.deepcopy(cur)):
                    if cand != cur and fails(cand):
                        cur = copy.deepcopy(cand)
                        progress = changed = True
                        break
    return cur, runs


# --------------------------------------------------------------------- search
def load_check(pid: str) -> Any:
    return importlib.import_module(f"dst.checks.{pid.lower()}")


def known_findings(pid: str) -> list[dict]:
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    data = json.loads(f.read_text())
    return [k for k in data["findings"] if k["property"] == pid]


def scenario_for(mod: Any, pid: str, seed: int, tier: str, i: int) -> dict:
    rng = random.Random(seed_int(seed, pid, i))
    s = mod.gen(rng, tier, i)
    s["_run"] = i
    return s


def _worker(mod: Any, pid: str, seed: int, tier: str, idxs: range, wfd: int, t_stop: float) -> None:
    for i in idxs:
        if time.monotonic() > t_stop:
            break
        try:
            sc = scenario_for(mod, pid, seed, tier, i)
        except BaseException:  # noqa: BLE001
            res = {"err": "generator: " + traceback.format_exc()}
            res.update({"viol": None, "digest": "", "n_events": 0, "events": [], "faults": {}, "probes": {}, "states": [], "sim_ns": 0, "steps": 0})
        else:
            res = run_isolated(mod, sc)
        if i >= 3 and not res["viol"]:
            res["events"] = []
        blob = pickle.dumps((i, res))
        view = memoryview(struct.pack("<Q", len(blob)) + blob)
        while view:
            n = os.write(wfd, view)
            view = view[n:]


def search(mod: Any, pid: str, seed: int, tier: str, n: int, workers: int, wall_s: float, on_result: Any) -> None:
    t_stop = time.monotonic() + wall_s
    procs = []
    for wk in range(workers):
        r, w = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            try:
                os.close(r)
                for _, r2 in procs:
                    os.close(r2)
                _worker(mod, pid, seed, tier, range(wk, n, workers), w, t_stop)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        procs.append((pid_, r))
    bufs = {r: b"" for _, r in procs}
    live = set(bufs)
    stop = False
    while live and not stop:
        rd, _, _ = select.select(list(live), [], [], 5)
        for r in rd:
            b = os.read(r, 1 << 18)
            if not b:
                live.discard(r)
                continue
            buf = bufs[r] + b
            while len(buf) >= 8:
                k = struct.unpack("<Q", buf[:8])[0]
                if len(buf) < 8 + k:
                    break
                i, res = pickle.loads(buf[8 : 8 + k])
                buf = buf[8 + k :]
                if on_result(i, res):
                    stop = True
            bufs[r] = buf
    for p, r in procs:
        if stop:
            try:
                os.kill(p, signal.SIGTERM)
            except ProcessLookupError:
                pass
        os.close(r)
    for p, _ in procs:
        os.waitpid(p, 0)


def write_replay(pid: str, seed: int, tier: str, scenario: dict, viol: dict, original: dict, min_runs: int, res: dict) -> Path:
    out = VERIF / "replays"
    out.mkdir(exist_ok=True)
    h = hashlib.sha256(json.dumps([viol["key"], scenario], sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = out / f"{pid}-{h}.json"
    p.write_text(
        json.dumps(
            {
                "property": pid,
                "violation": viol,
                "seed": seed,
                "tier": tier,
                "run": original.get("_run"),
                "scenario": scenario,
                "trace": res["events"],
                "event_digest": res["digest"],
                "minimiser_runs": min_runs,
                "original_scenario": original,
                "replay_cmd": f"/verif/check --replay {p}",
            },
            indent=1,
            default=str,
        )
    )
    return p


def replay_file(path: str) -> int:
    d = json.loads(Path(path).read_text())
    mod = load_check(d["property"])
    res = run_isolated(mod, d["scenario"])
    for e in res["events"]:
        print("  ", e)
    if res["err"]:
        print("HARNESS-ERROR", res["err"])
        return 3
    if res["viol"]:
        same = res["viol"]["key"] == d["violation"]["key"]
        print(f"reproduced={same} digest_equal={res['digest'] == d['event_digest']} key={res['viol']['key']}\n{res['viol']['msg']}")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("no violation")
    return 0


def main_check(pid: str, tier: str, seed: int) -> int:
    t0 = time.monotonic()
    mod = load_check(pid)
    if hasattr(mod, "warm"):
        mod.warm()
    workers = int(os.environ.get("DST_WORKERS", min(8, os.cpu_count() or 1)))
    n = int(os.environ.get("DST_RUNS", mod.RUNS[tier]))
    wall = float(os.environ.get("DST_WALL", 600 if tier == "quick" else 3 * 3600))
    print(f"{pid}: seed={seed} tier={tier} runs={n} workers={workers}", flush=True)

    agg = {"faults": Counter(), "probes": Counter(), "states": set(), "sim_ns": 0, "steps": 0}
    digests: dict[str, int] = {}
    per_run: dict[int, str] = {}
    viols: dict[str, tuple[int, dict]] = {}
    errs: list[tuple[int, str]] = []
    samples: dict[int, list] = {}
    done = 0
    nontrivial: set = set()
    first_v: list[float] = []
    known = known_findings(pid)
    known_hit: dict[str, int] = {}

    def on_result(i: int, res: dict) -> bool:
        nonlocal done
        done += 1
        agg["faults"].update(res["faults"])
        agg["probes"].update(res["probes"])
        if len(agg["states"]) < 2_000_000:
            agg["states"].update(res["states"])
        agg["sim_ns"] += res["sim_ns"]
        agg["steps"] += res["steps"]
        digests[res["digest"]] = digests.get(res["digest"], 0) + 1
        per_run[i] = res["digest"]
        if res["faults"] or res["probes"]:
            nontrivial.add(res["digest"])
        if i < 3:
            samples[i] = res["events"]
        if res["err"]:
            errs.append((i, res["err"]))
            return len(errs) > 5
        if res["viol"]:
            k = res["viol"]["key"]
            if any(f["key"] == k for f in known):
                known_hit[k] = known_hit.get(k, 0) + 1
                return False
            if k not in viols or i < viols[k][0]:
                viols[k] = (i, res)
            if not first_v:
                first_v.append(time.monotonic())
        # once something was found keep looking only briefly
        return bool(first_v) and (time.monotonic() - first_v[0] > 10 or len(viols) >= 3 or bool(os.environ.get("DST_FAST")))

    search(mod, pid, seed, tier, n, workers, wall, on_result)

    # determinism sample: same scenario again in a fresh fork must give the same event log
    re_n = re_div = 0
    if not viols and not errs:
        for i in sorted(per_run)[:: max(1, len(per_run) // 12)][:12]:
            res = run_isolated(mod, scenario_for(mod, pid, seed, tier, i))
            re_n += 1
            re_div += res["digest"] != per_run[i]

    if os.environ.get("DST_FAST") and (viols or errs):  # mutation runs: only whether something is found
        for k, (i, res) in viols.items():
            print(f"-- {pid} run={i} {k}: {res['viol']['msg'][:300]}")
        for i, e in errs[:2]:
            print(f"HARNESS-ERROR run={i}\n{e[-1500:]}")
        return 1 if viols else 2
    lines = []
    for k, (i, res) in sorted(viols.items(), key=lambda kv: kv[1][0])[:3]:
        sc = scenario_for(mod, pid, seed, tier, i)
        small, runs = minimise(mod, sc, k)
        again = run_isolated(mod, small)
        if not (again["viol"] and again["viol"]["key"] == k):
            small, again = sc, run_isolated(mod, sc)
            if not (again["viol"] and again["viol"]["key"] == k):
                errs.append((i, f"violation {k} of run {i} did not repeat: {res['viol']['msg']}"))
                continue
        p = write_replay(pid, seed, tier, small, again["viol"], sc, runs, again)
        print(f"-- {pid} run={i} {k}: {again['viol']['msg'][:1200]}")
        lines.append(f"VIOLATION property={pid} replay={p}")

    for f in known:
        # a listed finding is shown on every run, with its own stored scenario deciding whether it still exists
        state = "present"
        if f.get("scenario") is not None:
            r = run_isolated(mod, f["scenario"])
            state = "present" if r["viol"] and r["viol"]["key"] == f["key"] else "not reproduced"
        print(f"KNOWN-FINDING: property={pid} {f['what']} [{state}; met {known_hit.get(f['key'], 0)}x]")

    wall_s = time.monotonic() - t0
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE + " A run counts as non-trivial if at least one injected fault or probed rare condition actually fired in it; distinct = distinct event-log digests among those.",
            "samples": [
                {"scenario": _short(scenario_for(mod, pid, seed, tier, i)), "events": [e[:300] for e in ev_[:25]]}
                for i, ev_ in sorted(samples.items())[:2]
            ],
            "distinct_event_logs": len(digests),
            "distinct_states": len(agg["states"]),
            "state_measure": getattr(mod, "STATE_MEASURE", "hash of the abstract state after each step"),
            "runs_per_hour": round(done / max(wall_s, 1e-3) * 3600),
            "seeds_per_hour": round(done / max(wall_s, 1e-3) * 3600),
            "simulated_time_s": round(agg["sim_ns"] / 1e9, 3),
            "steps": agg["steps"],
            "faults_injected": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
            "determinism_recheck": {"runs": re_n, "diverged": re_div},
            "planned_runs": n,
            "known_findings_met": known_hit,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall_s, 2),
        "violations": len(lines),
    }
    edir = VERIF / "evidence"
    edir.mkdir(exist_ok=True)
    (edir / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{pid}: {done} runs, {len(nontrivial)} distinct non-trivial, {len(agg['states'])} states, faults={dict(agg['faults'])}, {wall_s:.1f} s")
    if lines:
        for x in lines:
            print(x)
        return 1
    if errs:
        for i, e in errs[:3]:
            print(f"HARNESS-ERROR run={i}\n{e}")
        return 2
    if done < n:
        print(f"note: wall limit reached after {done} of {n} runs")
    miss = [p for p in getattr(mod, "MUST_HIT", []) if not agg["probes"].get(p) and not agg["faults"].get(p)]
    if miss and done >= n and tier == "quick" and "DST_RUNS" not in os.environ:
        print("warning: never hit:", miss)
    return 0


def _short(o: Any, depth: int = 0) -> Any:
    if isinstance(o, dict):
        return {k: _short(v, depth + 1) for k, v in o.items()}
    if isinstance(o, list):
        return [_short(v, depth + 1) for v in o[:12]] + (["..."] if len(o) > 12 else [])
    if isinstance(o, str):
        return o[:200]
    return o
