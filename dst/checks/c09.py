"""C09: process starts on seeded hosts sharing one cache directory, under crashes, disk faults, clock jumps, foreign and damaged cache content, and interleaved starts."""

from __future__ import annotations

import os
import pickle
import shutil
import sys
from pathlib import Path

import yaml

from .. import sim
from ..sim import Node, gen_fault, interleave, place, process

RUNS = {"quick": 800, "thorough": 15000}
RULE = (
    "seeded histories of process starts on two kinds of hosts (one writes the cache, one reads it) sharing a cache directory: database "
    "of the shipped or of seeded fixture directories / single files that get edited in between, reset or not, system clock drawn per "
    "start (years back or ahead, expired, just fresh); each start may die or meet ENOSPC / EIO / EACCES / EROFS / disk quota / short "
    "transfers at any system call on the cache; starts interleave with each other and with a cleaner at every system call; between "
    "starts the cache is truncated, bit-flipped, replaced by garbage, an old-format pickle, a directory, or removed."
)
REAL = ["shepherd_core.testbed_client.fixtures / client_abc_fix incl. full package import", "PyYAML, pickle", "real processes on a real file system"]
STUB = ["disk completion and process death through libsim", "process scheduling (token per system call)", "wall clock", "paths of cache directory and of the host-detection file (redirected into scratch)"]
SHRINK = ["ops"]
STATE_MEASURE = "hash of (host kind, database asked for, reset, cache state before, fault kind, outcome, came from cache?)"
MUST_HIT = ["entry_behind_note", "served_from_cache", "cache_written", "started_beside_damage", "died_while_writing", "other_files_in_cache", "clock_before_cache", "race", "full_import", "edited_since_cached", "reset_ignores_cache"]

T0 = 1_720_000_000_000_000_000
H = 3_600_000_000_000
SHEEP = "/lib/firmware/am335x-pru0-fw"
WORDS = ["alpha", "Beta", "gamma7", "delta 2", "Epsilon", "zeta", "ETA", "theta-9"]


def warm() -> None:
    import shepherd_core  # noqa: F401


def gfix(rng):
    out = []
    if rng.random() < 0.1:
        return [{"dt": rng.choice(["Cape", "Target"]), "id": 51 + rng.randrange(3), "name": rng.choice("abc"), "v": 0, "inh": False, "tiny": True}]
    for j in range(rng.randrange(1, 5)):
        out.append({"dt": rng.choice(["Cape", "Target", "MCU", "Firmware"]), "id": 100 + j, "name": f"{rng.choice(WORDS)}{j}", "v": rng.randrange(1 << 20), "inh": rng.random() < 0.2})
    return out


def gen(rng, tier, i):
    ops = []
    full = i % 40 == 5
    for k in range(rng.randrange(3, 10)):
        r = rng.random()
        src = rng.choice(["A", "A", "A", "B", "B", "default" if i % 12 == 1 else "A", "Afile"])
        st = {
            "sheep": rng.random() < (0.75 if k == 0 else 0.4), "src": src, "reset": rng.random() < 0.12,
            "dt": rng.choice([0, 1, 60, 3600, 3600, 80_000, 86_399, 86_500, 86_400 * 3, 86_400 * 400, -60, -86_400, -86_400 * 3000, 86_400 * 365 * 60]),
            "fault": None if rng.random() < 0.6 else gen_fault(rng, ["crash", "crash", "torn", "torn", "crash_after", "ENOSPC", "EIO", "quota", "EACCES", "EROFS", "EIO-read", "EIO-read", "short", "EINTR"]),
        }
        if full and rng.random() < 0.5:
            st["full"] = True
            st["src"] = "default"
        if r < 0.62:
            ops.append(["start", st])
        elif r < 0.82:
            ops.append(["cache", {"do": rng.choice(["trunc", "trunc", "flip", "flip", "garbage", "empty", "old", "dir", "parentfile", "gone", "gone_dir", "mtime_future", "mtime_past", "link", "half_new"]), "pos": rng.random(), "bit": rng.randrange(8)}])
        elif r < 0.90:
            ops.append(["edit", {"d": rng.choice(["A", "B"]), "fix": gfix(rng), "same_size": rng.random() < 0.3}])
        else:
            n = [dict(st, sheep=rng.random() < 0.6, src=rng.choice(["A", "A", "B"]), full=False, fault=None) for _ in range(rng.randrange(2, 4))]
            ops.append(["race", {"n": n, "clean": rng.random() < 0.4, "dt": st["dt"], "sched": [rng.randrange(5) for _ in range(rng.randrange(0, 50))], "kill": rng.choice([None, None, rng.randrange(1, 40)])}])
    return {"A": [gfix(rng), gfix(rng)], "B": [gfix(rng)], "ops": ops, "sub": rng.random() < 0.3}


def simplify(sc):
    for k, o in enumerate(sc["ops"]):
        if o[0] == "start":
            for f, v in (("fault", None), ("reset", False), ("dt", 0), ("src", "A")):
                if o[1][f] != v:
                    c = [list(x) for x in sc["ops"]]
                    c[k] = [o[0], {**o[1], f: v}]
                    yield {**sc, "ops": c}


def render(fix):
    out = []
    for f in fix:
        if f.get("tiny"):
            out.append({"datatype": f["dt"], "parameters": {"id": f["id"], "name": f["name"]}})
            continue
        par = {"id": f["id"], "name": f["name"], "value": f["v"], "nested": {"list": [f["v"], 2], "txt": f"t{f['v']}"}}
        if f["inh"]:
            par["inherit_from"] = "someone"
        if f["v"] % 3 == 0:
            out.append(["just a note", ["a", "list"], 42][f["v"] % 9 // 3])  # something that is no entry, must be skipped
        out.append({"datatype": f["dt"], "parameters": par})
    return out


def dump(fx) -> dict:
    out = {}
    for t in sorted(fx.keys()):
        c = fx[t]
        names = sorted(c.keys())
        out[t] = ({n: c.query_name(n) for n in names}, {i: c.query_id(i) for i in c.refs()}, sorted(str(x["name"]) for x in c))
    return out


def expected(files) -> dict:
    names: dict = {}
    ids: dict = {}
    for f in files:
        for x in yaml.safe_load(f.read_text()):
            if isinstance(x, dict):
                t, q = x["datatype"].lower(), x["parameters"]
                names.setdefault(t, {})[str(q["name"]).lower()] = q
                ids.setdefault(t, {})[q["id"]] = q
    return {t: (names[t], ids[t], sorted(str(q["name"]) for q in names[t].values())) for t in sorted(names)}


def start(src, reset):
    import shepherd_core.testbed_client.fixtures as m

    cnt = [0]
    orig = yaml.safe_load

    def counted(*a, **k):
        cnt[0] += 1
        return orig(*a, **k)

    yaml.safe_load = counted
    fx = m.Fixtures(src, reset=reset)
    return dump(fx), cnt[0]


def start_full():
    for k in [k for k in sys.modules if k.split(".")[0] == "shepherd_core"]:
        del sys.modules[k]
    cnt = [0]
    orig = yaml.safe_load

    def counted(*a, **k):
        cnt[0] += 1
        return orig(*a, **k)

    yaml.safe_load = counted
    import shepherd_core  # noqa: F401
    from shepherd_core.testbed_client import tb_client as c

    out = {}
    for t in ["cape", "gpio", "mcu", "observer", "target", "testbed", "energyenvironment", "firmware", "virtualsourceconfig", "virtualharvesterconfig"]:
        nm = {n: c.query_item(t, name=n) for n in c.query_names(t)}
        out[t] = (nm, {i: c.query_item(t, uid=i) for i in c.query_ids(t)}, sorted(str(x["name"]) for x in nm.values()))
    return out, cnt[0]


def cleaner(cdir):
    for f in sorted(cdir.rglob("*")):
        if f.is_file():
            os.unlink(f)


def nuke(p):
    if p.is_dir():
        shutil.rmtree(p)
    elif p.exists():
        p.unlink()


def run(sc, ctx):
    import shepherd_core

    cdir = Path(ctx.scratch).parent / "x"
    sheep_file = ctx.scratch / "am335x"
    sim.redirect(SHEEP, sheep_file)
    shipped = Path(shepherd_core.__file__).parent / "data_models"
    dirs = {"A": ctx.scratch / "fixA", "B": ctx.scratch / "fixB"}

    def write(d, k, fix):
        dirs[d].mkdir(exist_ok=True)
        p = dirs[d] / "deep" / "er" / f"f{k}.yaml" if k and sc.get("sub") else dirs[d] / f"f{k}.yaml"
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(yaml.safe_dump(render(fix)))
        ctx.probe("entry_behind_note", int(any(x["v"] % 3 == 0 for x in fix)))

    for d in ("A", "B"):
        for k, fix in enumerate(sc[d]):
            for j, x in enumerate(fix):
                x["id"] += 100 * k
                x["name"] = f"{k}{x['name']}"
            write(d, k, fix)
    memo: dict = {}

    def want(src):
        if src == "default":
            if "d" not in memo:
                memo["d"] = expected(sorted(shipped.glob("**/*.yaml")))
            return memo["d"]
        if src == "Afile":
            return expected([dirs["A"] / "f0.yaml"])
        return expected(sorted(dirs[src].glob("**/*.yaml")))

    def arg(src):
        return None if src == "default" else dirs["A"] / "f0.yaml" if src == "Afile" else dirs[src]

    now = T0
    state = {"c": "absent", "of": None, "at": None, "edited": False}

    def cache_files():
        return {f: (f.stat().st_mtime_ns, f.stat().st_size) for f in sorted(cdir.rglob("*")) if f.is_file() and not f.is_symlink()}

    def stamp(before):
        """What got written carries the simulated time."""
        ch = [f for f, s in cache_files().items() if before.get(f) != s]
        for f in ch:
            os.utime(f, ns=(max(now, 0), max(now, 0)))
        return [f for f in ch if f.suffix == ".pickle"]

    def judge(what, s, res, killed_ok):
        if res.status in ("died", "killed") and killed_ok:
            if cache_files():
                ctx.probe("died_while_writing")
            return "died"
        ctx.check(res.status == "ok", "start-failed", f"{what} {s} cache {state}: {res}")
        got, loads = res.value
        w = want(s["src"])
        if got != w:
            bad = [t for t in sorted(set(got) | set(w)) if got.get(t) != w.get(t)]
            ctx.check(False, "wrong-database", f"{what} {s['src']} (cache {state}): differs in {bad}: {str([got.get(t) for t in bad])[:300]}")
        if loads == 0:
            ctx.probe("served_from_cache")
            ctx.check(not s["reset"], "reset-used-cache", s)
        elif s["reset"] and state["c"] == "good":
            ctx.probe("reset_ignores_cache")
        return "cache" if loads == 0 else "files"

    for op, a in sc["ops"]:
        before = cache_files()
        if op == "start":
            now = max(now + a["dt"] * 10**9, -10**9 * 86_400 * 300)
            if state["at"] is not None and now < state["at"]:
                ctx.probe("clock_before_cache")
            ctx.simtime(abs(a["dt"]) * 10**9)
            if a["sheep"]:
                sheep_file.write_bytes(b"x")
            elif sheep_file.exists():
                sheep_file.unlink()
            fn, args = (start_full, ()) if a.get("full") else (start, (arg(a["src"]), a["reset"]))
            if a.get("full"):
                ctx.probe("full_import")
            plan = []
            if a["fault"]:
                # learn what an undisturbed start does, on a copy of the cache
                keep = ctx.scratch / "keep"
                if cdir.is_dir():
                    shutil.copytree(cdir, keep, symlinks=True)
                elif cdir.exists():
                    shutil.copy2(cdir, keep)
                dry = process(fn, *args, root=cdir, clk=(now, 0))
                nuke(cdir)
                if keep.exists():
                    keep.rename(cdir)
                plan = [place(a["fault"], dry.ops or {})]
                before = cache_files()
            res = process(fn, *args, root=cdir, clk=(now, 0), plan=plan)
            ctx.absorb(res)
            fk = a["fault"]["k"] if a["fault"] else None
            if a.get("full"):
                a = {**a, "reset": False}
            how = judge("start", a, res, fk in ("crash", "torn", "crash_after"))
            if state["c"] not in ("good", "absent") and how == "files":
                ctx.probe("started_beside_damage")
            if how == "files" and state["c"] == "good" and state["of"] not in (None, a["src"]):
                ctx.probe("other_files_in_cache")
            if how == "files" and state["edited"] and state["of"] == a["src"]:
                ctx.probe("edited_since_cached")
            ctx.state(a["sheep"], a["src"], a["reset"], state["c"], fk, how, bool(a.get("full")))
            w = stamp(before)
            if w:
                ctx.probe("cache_written")
                state.update(c="good" if res.status == "ok" and not [1 for _, n in res.fired if n] else "disturbed", of=a["src"], at=now, edited=False)
            ctx.ev("start", a["sheep"], a["src"], a["reset"], now, fk, how)
        elif op == "cache":
            do = a["do"]
            fs = [f for f in before if f.suffix == ".pickle"]
            ctx.fault(f"cache_{do}")
            for f in fs:
                b = f.read_bytes()
                mt = f.stat().st_mtime_ns
                if do == "trunc":
                    f.write_bytes(b[: int(a["pos"] * len(b))])
                elif do == "flip" and b:
                    x = bytearray(b)
                    x[int(a["pos"] * len(b))] ^= 1 << a["bit"]
                    f.write_bytes(bytes(x))
                elif do == "garbage":
                    f.write_bytes(bytes((j * 37 + a["bit"]) % 256 for j in range(int(a["pos"] * 5000))))
                elif do == "empty":
                    f.write_bytes(b"")
                elif do == "old":
                    import shepherd_core.testbed_client.fixtures as m

                    old = m.Fixture("cape")
                    f.write_bytes(pickle.dumps({"cape": old} if a["bit"] % 2 else {"x": 1}))
                elif do == "dir":
                    f.unlink()
                    f.mkdir()
                elif do == "link":
                    f.unlink()
                    f.symlink_to(ctx.scratch / "nowhere" / "f")
                elif do == "half_new":
                    f.write_bytes(b[: len(b) // 2] + bytes(len(b) - len(b) // 2))
                elif do == "gone":
                    f.unlink()
                if f.is_file() and not f.is_symlink() and do not in ("mtime_future", "mtime_past"):
                    os.utime(f, ns=(mt, mt))
                elif f.is_file() and not f.is_symlink():
                    t = now + (10**9 * 86_400 * 365 * 300 if do == "mtime_future" else -(10**9) * 86_400 * 2)
                    os.utime(f, ns=(max(0, t), max(0, t)))
                    state["at"] = t
            if do == "gone_dir":
                nuke(cdir)
            elif do == "parentfile":
                nuke(cdir)
                cdir.write_bytes(b"x")
                # a file where the directory should be: stays for the next start only
            if fs and not do.startswith("mtime"):
                state["c"] = do
            if do == "parentfile":
                state["c"] = do
            ctx.ev("cache", do, len(fs))
        elif op == "edit":
            fix = a["fix"]
            if a["same_size"]:
                p0 = dirs[a["d"]] / "f0.yaml"
                x = yaml.safe_load(p0.read_text())
                par = next(y for y in x if isinstance(y, dict))["parameters"]
                if "nested" in par:
                    par["nested"]["txt"] = par["nested"]["txt"][::-1]
                else:
                    par["name"] = par["name"][::-1]
                mt = p0.stat().st_mtime_ns
                p0.write_text(yaml.safe_dump(x))
                os.utime(p0, ns=(mt, mt))
            else:
                write(a["d"], 0, fix)
            state["edited"] = state["of"] in (a["d"], a["d"] + "file")
            ctx.ev("edit", a["d"])
        elif op == "race":
            now = max(now + a["dt"] * 10**9, -10**9 * 86_400 * 300)
            ctx.simtime(abs(a["dt"]) * 10**9)
            ctx.probe("race")
            sheep_file.write_bytes(b"x")
            if not cdir.exists() and not cdir.is_symlink():
                cdir.mkdir()
            nodes = []
            for k, s in enumerate(a["n"]):
                def body(src, reset, sheep):
                    sim.redirect(None, None)
                    sim.redirect(os.environ["XDG_CACHE_HOME"], cdir)
                    sim.redirect(SHEEP, sheep_file if sheep else ctx.scratch / "not_there")
                    return start(src, reset)

                nodes.append(Node(f"s{k}", body, (arg(s["src"]), s["reset"], s["sheep"]), clk=(now, 0)))
            if a["clean"]:
                nodes.append(Node("clean", cleaner, (cdir,)))
            sched = list(a["sched"])
            killed = []

            def pick(names, step):
                if a["kill"] == step and "s0" in names:
                    killed.append("s0")
                    return ("kill", "s0")
                return names[sched[step] % len(names)] if step < len(sched) else names[step % len(names)]

            order, steps = interleave(nodes, cdir, pick)
            ctx.steps += steps
            if killed:
                ctx.fault("process_death")
            hows = []
            for nd, s in zip(nodes, a["n"]):
                hows.append(judge("race " + "".join(order[:60]), s, nd.result, nd.name in killed))
            if stamp(before):
                ctx.probe("cache_written")
                state.update(c="good", of="?", at=now, edited=False)
            ctx.state("race", tuple(hows), a["clean"], bool(killed), tuple(sorted((s["sheep"], s["src"]) for s in a["n"])))
            ctx.ev("race", "".join(order[:80]), hows)
        if state["c"] == "parentfile" and op != "cache" and cdir.is_file():
            cdir.unlink()
        if not cdir.exists() and state["c"] != "parentfile" and op != "cache":
            cdir.mkdir(exist_ok=True)
            state["c"] = "absent"
