"""C02: competing writer processes interleaved at every system call on a shared directory."""

from __future__ import annotations

import os
from pathlib import Path

import h5py
import numpy as np

from ..sim import Node, interleave, process

RUNS = {"quick": 2000, "thorough": 30000}
RULE = (
    "2-4 real writer processes open the same target path without overwrite / modify permission; a seeded scheduler decides at "
    "every file-system call which process moves, kills some of them at a seeded call; afterwards a lone writer opens the same "
    "path. Starting states: free path, existing recording, occupied candidate names, garbage or empty files, dangling links and directories at candidate names, path being a link, missing directory."
)
REAL = ["shepherd_core.Writer", "h5py / HDF5 incl. its file locking", "real processes on a real file system"]
STUB = ["process scheduling (token per system call) and process death through libsim"]
SHRINK = ["sched", "kills", "pre"]
STATE_MEASURE = "hash of the executed process schedule (which process ran at each file-system call)"


def warm() -> None:
    from shepherd_core import Reader, Writer  # noqa: F401


def gen(rng, tier, i):
    n = rng.choice([2, 2, 2, 3, 4])
    pre = []
    for nm in ["rec.h5", "rec.0.h5", "rec.1.h5", "rec.2.h5", "rec.3.h5"][: rng.choice([0, 1, 1, 2, 3, 5])]:
        if rng.random() < 0.8:
            what = ["rec", "rec", "empty", "garbage"] + (["dangling", "dir"] if nm != "rec.h5" else ["link"])
            pre.append([nm, rng.choice(what)])
    crowd = 0
    if pre and rng.random() < 0.12:
        crowd = rng.choice([20, 70, 101, 130, 260, 1100])
        pre = [["rec.h5", "empty"]]
    fine = rng.random() < 0.5
    sched = [[rng.randrange(n), rng.choice([1, 1, 2, 3]) if fine else rng.randrange(1, 25)] for _ in range(rng.randrange(0, 120))]
    kills = [[rng.randrange(n), rng.randrange(1, 160)] for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    return {"n": n, "pre": pre, "crowd": crowd, "sched": sched, "kills": kills, "deep": rng.random() < 0.2 and not pre, "bufs": [rng.randrange(1, 3) for _ in range(n)], "name": rng.choice(["rec.h5", "rec.h5", "rec.h5", "rec.v1.h5"])}


def data_of(tag, bufs):
    n = bufs * 10_000
    return np.arange(n, dtype="u8") * 10_000 + tag, np.full(n, 1000 + tag, "u4"), np.full(n, 2000 + tag, "u4")


def write(path, tag, bufs):
    from shepherd_core import Writer

    with Writer(path, verbose=False, compression=None) as w:
        for k in range(bufs):
            t, v, c = (x[k * 10_000 : (k + 1) * 10_000] for x in data_of(tag, bufs))
            w.append_iv_data_raw(t, v, c)
        w.store_hostname(f"sheep{tag}")
    return str(w.file_path)


def own(ctx, p, tag, bufs, why):
    with h5py.File(p, "r") as h:
        t, v, c = data_of(tag, bufs)
        ok = all(np.array_equal(h["data"][k][:], e) for k, e in (("time", t), ("voltage", v), ("current", c)))
        ctx.check(ok and h.attrs["hostname"] == f"sheep{tag}", "lost-or-foreign-samples", f"{why}: {p.name} does not hold the samples of writer {tag}")


def snap(root):
    return {str(p.relative_to(root)): look(p) for p in sorted(root.rglob("*"))}


def look(p):
    if p.is_symlink():
        return "-> " + os.readlink(p)
    return "dir" if p.is_dir() else p.read_bytes() if p.exists() else None


def run(sc, ctx):
    root = ctx.scratch.resolve() / "d"
    root.mkdir()
    base = root / "sub" if sc["deep"] else root
    path = base / sc["name"]
    for nm, what in sc["pre"]:
        nm = nm.replace("rec", sc["name"][:-3], 1)
        if what == "rec":
            assert write(base / nm, 99, 1) == str((base / nm).resolve())
        elif what == "link":  # recordings are kept elsewhere
            (root / "real").mkdir()
            write(root / "real" / "other.h5", 99, 1)
            (base / nm).symlink_to(root / "real" / "other.h5")
            ctx.probe("path_is_link")
        elif what == "dangling":
            (base / nm).symlink_to("gone-" + nm)
            ctx.probe("dangling_candidate")
        elif what == "dir":
            (base / nm).mkdir()
        else:
            (base / nm).write_bytes(b"" if what == "empty" else b"not hdf5" * 40)
    for k in range(sc["crowd"]):  # remains of many dead writers
        (base / f"{sc['name'][:-3]}.{k}.h5").touch()
    ctx.probe("crowded", int(sc["crowd"] > 100))
    before = snap(root)
    nodes = [Node(f"w{k}", write, (path, k, sc["bufs"][k])) for k in range(sc["n"])]
    plan = [list(x) for x in sc["sched"]]
    kills = {(f"w{a}", b) for a, b in sc["kills"] if a < sc["n"]}
    done_steps = {nd.name: 0 for nd in nodes}
    rr = [0]

    def pick(ready, step):
        nm = None
        while plan:
            who, left = plan[0]
            cand = f"w{who}"
            if left <= 0 or cand not in ready:
                plan.pop(0)
                continue
            plan[0][1] -= 1
            nm = cand
            break
        if nm is None:
            nm = ready[rr[0] % len(ready)]
            if step % 7 == 0:
                rr[0] += 1
        done_steps[nm] += 1
        if (nm, done_steps[nm]) in kills:
            ctx.fault("process_killed")
            return ("kill", nm)
        return nm

    sched, steps = interleave(nodes, root, pick)
    ctx.steps += steps
    switches = sum(a != b for a, b in zip(sched, sched[1:]))
    ctx.probe("context_switches", switches)
    ctx.state("".join(sched))
    ctx.ev("sched", " ".join(sched))
    used = {}

    def rel(p):
        return os.path.relpath(p, root)

    for k, nd in enumerate(nodes):
        r = nd.result
        ctx.ev(nd.name, r.status, rel(r.value) if r.status == "ok" else r.value[0] if r.status == "exc" else "")
        ctx.check(r.status in ("ok", "exc", "died"), "writer-stuck", f"{nd.name}: {r}")
        if r.status == "ok":
            ctx.check(r.value not in used, "two-writers-one-file", f"{nd.name} and {used.get(r.value)} both recorded into {rel(r.value)}")
            used[r.value] = nd.name
        elif r.status == "exc":
            ctx.probe("writer_lost_race")
    for nm, b in before.items():
        now = root / nm
        ctx.check(look(now) == b, "existing-file-changed", f"{nm} changed though no writer may overwrite it")
    for k, nd in enumerate(nodes):
        if nd.result.status == "ok":
            own(ctx, Path(nd.result.value), k, sc["bufs"][k], "after the race")
    after = snap(root)
    if len(used) >= 2:
        ctx.probe("several_writers_succeeded")
    r = process(write, path, 50, 1)
    ctx.check(r.status == "ok", "lone-writer-failed", f"{r.value[:3] if r.status == 'exc' else r}")
    ctx.check(rel(r.value) not in after, "lone-writer-took-existing", rel(r.value))
    now = snap(root)
    for nm, b in after.items():
        ctx.check(now.get(nm) == b, "existing-file-changed", f"{nm} changed by a later writer")
    own(ctx, Path(r.value), 50, 1, "lone writer")
    ctx.ev("lone", rel(r.value))
