"""C03: refused, failing and read-only opens on intact and damaged files under disk read faults."""

from __future__ import annotations

import h5py
import numpy as np

from ..h5util import fds, rot_payload, snap
from ..sim import Disk

RUNS = {"quick": 3500, "thorough": 50000}
RULE = (
    "seeded sequences of writer opens (legal and refused argument combinations; new / modify / overwrite; existing, damaged, free, "
    "missing, directory targets) and reader sessions (open, analyses, exception in the body) in one process, with EIO / EINTR / short "
    "reads at seeded points; every file is compared byte for byte and every descriptor accounted for, in the very exception handler."
)
REAL = ["shepherd_core.Writer", "shepherd_core.Reader", "shepherd_data.Reader", "h5py / HDF5 on a real file system"]
STUB = ["disk completion of reads through libsim"]
SHRINK = ["ops", "files"]
STATE_MEASURE = "hash of (operation, target condition, outcome type)"


def warm() -> None:
    import shepherd_data  # noqa: F401
    from shepherd_core import Reader, Writer  # noqa: F401


DAMAGE = ["ok", "ok", "ok", "truncated", "garbage", "empty", "no_data", "no_time", "no_voltage", "no_mode", "no_window", "bitrot", "log_bad", "text_gain"]


def gen(rng, tier, i):
    files = []
    for _ in range(rng.randrange(1, 4)):
        mode = rng.choice(["harvester", "harvester", "emulator"])
        dt = "ivsample" if mode == "emulator" else rng.choice(["ivsample", "ivcurve", "isc_voc"])
        files.append({"mode": mode, "dtype": dt, "win": 100 if dt == "ivcurve" else 0, "damage": rng.choice(DAMAGE), "at": rng.random(), "n": rng.choice([0, 10_000, 20_000]), "pos": rng.randrange(1 << 30), "ext": rng.choice([".h5", ".h5", ".h5", ".hdf5", "", ".H5", ".v1.h5"])})
    ops = []
    for _ in range(rng.randrange(3, 12)):
        tgt = rng.choice([0, 1, 2, "free", "free", "deep", "dir", "ro"]) if rng.random() < 0.5 else rng.randrange(3)
        if rng.random() < 0.6:
            a = {}
            r = rng.random()
            if r < 0.75:
                a = rng.choice([
                    {"mode": "foo"}, {"mode": ""}, {"mode": "emulator", "datatype": "ivcurve", "window_samples": 5}, {"mode": "emulator", "datatype": "isc_voc"},
                    {"datatype": "nonsense"}, {"datatype": "ivcurve"}, {"datatype": "ivcurve", "window_samples": 0}, {"mode": "harvester", "datatype": "ivcurve"},
                    {"mode": "emulator"}, {"datatype": "isc_voc"}, {"cal_data": "x"}, {"cal_data": {"voltage": {"gain": -1.0}}}, {"compression": "zip"}, {"window_samples": "abc"},
                    {"datatype": "ivcurve", "window_samples": -3}, {"mode": 5}, {"file_path": None}, {"file_path": 5}, {"mode": "harvester", "datatype": "ivsample"}, {"mode": "harvester", "datatype": "ivcurve", "window_samples": 10},
                ])
            ops.append(["w", {"tgt": tgt, "kind": rng.choice(["new", "modify", "overwrite"]), "args": a, "fault": gen_fault(rng, 0.2)}])
        else:
            ops.append(["r", {"tgt": tgt if tgt not in ("deep",) else "free", "cls": rng.choice(["core", "data"]), "do": [rng.choice(["energy", "meta", "minimal", "read", "stats", "valid", "check", "boom", "repr", "gpio", "errors", "step"]) for _ in range(rng.randrange(0, 4))], "fault": gen_fault(rng, 0.4)}])
    return {"files": files, "ops": ops}


def gen_fault(rng, p):
    if rng.random() > p:
        return None
    k = rng.choice(["EIO", "EIO", "EIO", "short", "EINTR"])
    nth = rng.choice([0, 1, 2, 3, rng.randrange(4, 30)])
    if k == "short":
        return {"kind": "short", "ops": ["read"], "nth": nth, "count": 3, "arg": rng.randrange(1, 999)}
    return {"kind": "errno", "ops": ["read"], "nth": nth, "count": rng.choice([1, 2, -1]) if k == "EIO" else 1, "arg": k}


def make(p, f):
    from shepherd_core import Writer

    with Writer(p, mode=f["mode"], datatype=f["dtype"], window_samples=f["win"], verbose=False) as w:
        n = f["n"]
        rs = np.random.RandomState(f["pos"] % (1 << 31))
        if n:
            w.append_iv_data_raw(1_000_000, rs.randint(0, 1 << 30, n).astype("u4"), rs.randint(0, 1 << 30, n).astype("u4"))
        w.store_hostname("h")
        if f["damage"] == "log_bad":
            w.h5file.create_group("sheep").create_dataset("level", data=np.array([10, 40, 50]), chunks=(1,), compression=1)
    d = f["damage"]
    if d == "truncated":
        b = p.read_bytes()
        p.write_bytes(b[: int(len(b) * f["at"])])
    elif d == "bitrot":
        rot_payload(p, "data/" + ["time", "voltage", "current"][f["pos"] % 3], f["pos"])
    elif d == "log_bad":
        rot_payload(p, "sheep/level", f["pos"])
    elif d == "garbage":
        p.write_bytes(b"\x89HDF" + bytes(range(256)) * 9)
    elif d == "empty":
        p.write_bytes(b"")
    elif d != "ok":
        with h5py.File(p, "r+") as h:
            if d == "no_data":
                del h["data"]
            elif d in ("no_time", "no_voltage"):
                del h["data"][d[3:]]
            elif d == "no_mode":
                del h.attrs["mode"]
            elif d == "no_window":
                del h["data"].attrs["window_samples"]
            elif d == "text_gain":
                h["data/voltage"].attrs["gain"] = "broken"


class Boom(Exception):
    pass


def refused(a, kind, f, tgt):
    """True / False / None (no statement) for argument combinations on a file as specified."""
    if tgt == "dir":
        return True
    if "file_path" in a or "cal_data" in a or a.get("compression") == "zip" or a.get("window_samples") == "abc" or a.get("mode") == 5:
        return True
    if a.get("mode") in ("foo", "") or a.get("datatype") == "nonsense":
        return True
    base = {"mode": "harvester", "dtype": "ivsample", "win": 0}
    if kind == "modify":
        if f is None or f["damage"] in ("truncated", "garbage", "empty", "no_data", "no_time", "no_voltage", "bitrot", "no_mode", "no_window", "text_gain", "log_bad"):
            return None
        base = f
    mode, dt, win = a.get("mode", base["mode"]), a.get("datatype", base["dtype"]), a.get("window_samples", base["win"])
    if mode == "emulator" and dt != "ivsample":
        return True
    if a.get("datatype") == "ivcurve" and win < 1:
        return True
    return False


def run(sc, ctx):
    import shepherd_core
    import shepherd_data
    from shepherd_core import Writer
    from shepherd_core.data_models.base.calibration import CalibrationSeries  # noqa: F401

    root = ctx.scratch / "d"
    root.mkdir()
    (root / "dir.h5").mkdir()
    specs = []
    for k, f in enumerate(sc["files"]):
        make(root / f"rec{k}{f.get('ext', '.h5')}", f)
        specs.append(f)
    ctx.check(not fds(root), "leak-after-recording", fds(root))

    def path_of(t):
        if isinstance(t, int):
            return (root / f"rec{t % len(specs)}{specs[t % len(specs)].get('ext', '.h5')}", specs[t % len(specs)]) if specs else (root / "free.h5", None)
        return {"free": root / "free.h5", "deep": root / "sub" / "deep" / "x.h5", "dir": root / "dir.h5", "ro": root / "free2.h5"}[t], made.get(t)

    made: dict = {}

    def released(p, why):
        """Called inside the except block: nothing may still hold the file."""
        ctx.check(not fds(root), "file-not-released", f"{why}: still open {fds(root)}")
        if p.is_file():
            b = p.read_bytes()
            try:
                h5py.File(p, "w").close()
            except OSError as e:
                ctx.check(False, "cannot-reopen-for-writing", f"{why}: {e}")
            p.write_bytes(b)

    for op, o in sc["ops"]:
        ctx.steps += 1
        p, f = path_of(o["tgt"])
        before = snap(root)
        plan = [o["fault"]] if o["fault"] else []
        cond = f["damage"] if f else o["tgt"]
        if op == "w":
            a = dict(o["args"])
            kw = {"verbose": False, "modify_existing": o["kind"] == "modify", "force_overwrite": o["kind"] == "overwrite", **a}
            fp = kw.pop("file_path", p)
            if isinstance(kw.get("cal_data"), dict):
                kw["cal_data"] = {"current": kw["cal_data"]["voltage"]}
            exp = refused(o["args"], o["kind"], f if p.exists() else None, o["tgt"])
            if o["kind"] == "modify" and not p.exists():
                exp = True
            if exp is False and p.exists() and o["kind"] == "modify" and o["fault"] and o["fault"].get("arg") == "EIO":
                exp = None
            w = None
            err = None
            with Disk(root, plan) as d:
                try:
                    w = Writer(fp, **kw)
                except Exception as e:  # noqa: BLE001
                    err = type(e).__name__
                    fired = d.fired()
                    d.__exit__()
                    ctx.ev("w", o["kind"], cond, sorted(o["args"]), err)
                    now = snap(root)
                    if exp is True:
                        new = [n for n in now if n not in before]
                        chg = [n for n in before if now.get(n) != before[n]]
                        ctx.check(not chg, "refused-open-changed-file", f"{o['kind']} with {o['args']} raised {err} and changed {chg}")
                        ctx.check(not new, "refused-open-left-file", f"{o['kind']} with {o['args']} raised {err} and left {new}")
                        ctx.probe("refused")
                    else:
                        ctx.check(exp is None or p.is_dir(), "legal-open-refused", lambda: f"{o['kind']} {o['args']} on {cond}: {e!r}")
                        ctx.probe("failed_open")
                        if o["kind"] == "modify" and f is not None and f["damage"] in ("no_data", "no_time", "no_voltage", "garbage"):
                            chg = [n for n in before if now.get(n) != before[n]]
                            ctx.check(not chg, "failed-open-changed-file", f"modify of {cond} raised {err} and changed {chg}")
                    released(p, f"{o['kind']} {o['args']} on {cond} raised {err}")
                else:
                    fired = d.fired()
                    d.__exit__()
            for k, n in fired:
                ctx.fault("read_" + k, n)
            if w is not None:
                name = w.file_path
                try:
                    ctx.check(exp is not True, "illegal-open-accepted", f"{o['kind']} {o['args']} on {cond}")
                    ctx.ev("w", o["kind"], cond, sorted(o["args"]), "accepted", name.name)
                finally:
                    try:
                        w.__exit__()
                    except Exception as e:  # noqa: BLE001
                        if f is None or f["damage"] in ("ok",):
                            raise
                        ctx.probe("close_failed_on_damage")
                        ctx.ev("close failed", type(e).__name__)
                        ctx.check(not fds(root), "close-not-released", f"closing {cond}: {fds(root)}")
                    ctx.check(not fds(root), "close-not-released", f"{fds(root)}")
                now = snap(root)
                others = [n for n in before if n != str(name.relative_to(root)) and now.get(n) != before[n]]
                ctx.check(not others, "open-changed-other-file", others)
                if o["kind"] == "new":
                    ctx.check(str(name.relative_to(root)) not in before, "new-took-existing", name.name)
                if name == p and not isinstance(o["tgt"], int) and f is None:
                    f = made[o["tgt"]] = {"damage": "ok", "mode": "harvester", "dtype": "ivsample", "win": 0, "n": 0}
                if f is not None and name == p:
                    if o["kind"] == "overwrite":
                        f.update({"damage": "ok", "mode": "harvester", "dtype": "ivsample", "win": 0, "n": 0})
                    f.update({k2: v2 for k2, v2 in (("mode", o["args"].get("mode")), ("dtype", o["args"].get("datatype")), ("win", o["args"].get("window_samples"))) if v2 is not None})
                    if o["kind"] == "modify" and f["damage"] == "ok":
                        with h5py.File(p, "r") as h:
                            ctx.check(h["data/voltage"].shape[0] == f["n"], "modify-lost-samples", f["n"])
                    elif o["kind"] == "modify":
                        f["damage"] = "bitrot"  # partly repaired: no statement about what comes next
            ctx.state(op, o["kind"], cond, tuple(sorted(o["args"])), err)
        else:
            cls = shepherd_core.Reader if o["cls"] == "core" else shepherd_data.Reader
            err = None
            with Disk(root, plan) as d:
                try:
                    with cls(p, verbose=False) as r:
                        for a in o["do"]:
                            if a == "boom":
                                raise Boom
                            act(r, a)
                except Boom:
                    err = "Boom"
                    fired = d.fired()
                    d.__exit__()
                    released(p, "exception in the body")
                    ctx.fault("exception_in_body")
                except Exception as e:  # noqa: BLE001
                    err = type(e).__name__
                    fired = d.fired()
                    d.__exit__()
                    ok = f is not None and ("check" not in o["do"] or f["n"] >= 10_000) and f["damage"] == "ok" and not any(n for _, n in fired)
                    ctx.check(not ok or not p.exists(), "intact-file-unreadable", lambda: f"{o['do']}: {e!r}")
                    released(p, f"reader {o['do']} on {cond} raised {err}")
                    ctx.probe("reader_failed")
                else:
                    fired = d.fired()
                    d.__exit__()
                    released(p, "after reading")
            for k, n in fired:
                ctx.fault("read_" + k, n)
            now = snap(root)
            ctx.check(now == before, "reader-changed-files", f"{o['do']} on {cond}: {[n for n in now if now[n] != before.get(n)]}")
            ctx.ev("r", o["cls"], cond, o["do"], err)
            ctx.state(op, cond, tuple(o["do"]), err)


def act(r, a):
    if a == "energy":
        r.energy()
    elif a == "meta":
        r.get_metadata()
    elif a == "minimal":
        r.get_metadata(minimal=True)
    elif a == "read":
        for _ in r.read_buffers():
            pass
    elif a == "stats":
        r.get_metadata(r.ds_voltage)
    elif a == "valid":
        r.is_valid()
    elif a == "check":
        r.check_timediffs()
    elif a == "repr":
        repr(r)
    elif a == "gpio":
        r.gpio_to_waveforms()
    elif a == "errors":
        r.count_errors_in_log()
    elif a == "step":
        r.get_voltage_step()
