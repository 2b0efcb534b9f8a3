"""C07: recordings made by a simulated recorder whose clock follows a seeded fault schedule, and files with seeded structural omissions."""

from __future__ import annotations

import h5py
import numpy as np

from ..sim import Disk

RUNS = {"quick": 5000, "thorough": 60000}
RULE = (
    "a simulated recorder stamps buffers with a clock that drifts, jumps forward / backward, repeats or loses buffers at seeded "
    "positions (first, last, at slice boundaries, anywhere), recorded through the real writer in one or several sessions; the time "
    "check runs with seeded internal slice sizes and short reads / EINTR from the disk; other runs remove or corrupt seeded "
    "combinations of structural elements and ask for the verdict."
)
REAL = ["shepherd_core.Writer", "shepherd_core.Reader.is_valid / check_timediffs / constructor", "h5py on a real file system"]
STUB = ["recorder clock (simulated)", "disk completion of reads through libsim"]
SHRINK = ["jumps", "omit", "disk"]
STATE_MEASURE = "hash of (number of buffers, slice size, fault kinds and positions relative to slices, verdict)"
MUST_HIT = ["clock_jump", "clock_back", "clock_repeat", "clock_lost_buffer", "at_slice_boundary", "steady_accepted", "single_buffer", "default_slice_crossed", "invalid_reported", "short", "EINTR"]

BUF = 10_000
NS = 100_000_000  # one buffer
OMIT = ["mode", "mode_bad", "dtype", "dtype_bad", "win", "time", "voltage", "current", "gain_time", "gain_voltage", "gain_current", "off_time", "off_voltage", "off_current", "data", "ivc_win0", "emu_ivcurve", "emu_isc"]


def warm() -> None:
    from shepherd_core import Reader, Writer  # noqa: F401


def gen(rng, tier, i):
    if i % 4 == 3:
        mode = rng.choice(["harvester", "harvester", "emulator"])
        return {"what": "struct", "mode": mode, "dtype": "ivsample" if mode == "emulator" else rng.choice(["ivsample", "ivcurve", "isc_voc"]), "n": rng.choice([0, BUF, 2 * BUF]),
                "omit": rng.sample(OMIT, rng.choice([0, 1, 1, 1, 2, 3])), "disk": []}
    big = i % (250 if tier == "quick" else 100) == 0
    n = rng.choice([1, 2, 3, 4, 5, 8, 13, 30]) if not big else rng.choice([401, 402, 405, 801])
    sl = None if big else rng.choice([1, 2, 3, 4, 7, None, None])
    jumps = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3]) if n > 1 else 0):
        s = 400 if sl is None else sl
        at = rng.choice([1, n - 1, rng.randrange(1, n), min(n - 1, s), min(n - 1, s * rng.randrange(1, max(2, n // s + 1)))])
        kind = rng.choice(["jump", "jump", "back", "repeat", "lost", "freeze"])
        size = rng.choice([0.06, 0.07, 0.1, 0.5, 1.0, 2.0, 10.0, 1e4, rng.uniform(0.06, 3)])
        jumps.append([at, kind, size])
    return {"what": "time", "n": n, "sl": sl, "big": big, "jumps": jumps, "rate": rng.choice([1.0] * 6 + [0.5, 2.0, 10.0, 0.9, 1.07, 0.0]) if n > 1 else 1.0,
            "ppm": rng.choice([0, 0, 20, -50, 100]), "start": rng.choice([0, 1, 1_700_000_000_000_000_000, rng.randrange(1 << 62), (1 << 63) - 5 * NS]), "sessions": rng.choice([1, 1, 2, 3]),
            "comp": rng.choice(["lzf", "null"]), "scalar": rng.random() < 0.3, "t_off": rng.choice([0, 0, 0, 0.25, -2.0, 50.0]), "disk": [] if rng.random() < 0.7 else [rng.choice([{"kind": "short", "ops": ["read"], "nth": rng.randrange(0, 10), "count": rng.choice([1, 5, -1]), "arg": rng.randrange(1, 999)}, {"kind": "errno", "ops": ["read"], "nth": rng.randrange(0, 10), "count": 1, "arg": "EINTR"}])]}


def simplify(sc):
    if sc["what"] == "time":
        for k, v in (("ppm", 0), ("start", 0), ("sessions", 1), ("rate", 1.0), ("scalar", False), ("t_off", 0), ("disk", [])):
            if sc[k] != v:
                yield {**sc, k: v}


def stamps(sc):
    """Start of every buffer by the recorder's clock, and whether every buffer step is nominal."""
    step = NS * sc["rate"] * (1 + sc["ppm"] * 1e-6)
    t, out, seq = float(sc["start"]), [], 0
    ev = {}
    for at, kind, size in sc["jumps"]:
        ev.setdefault(at, []).append((kind, size))
    # exact integer arithmetic from the start value
    off = 0
    for k in range(sc["n"]):
        for kind, size in ev.get(k, []):
            if kind == "jump":
                off += int(size * NS)
            elif kind == "back":
                off -= int(size * NS)
            elif kind == "repeat":
                off -= int(step)
            elif kind == "lost":
                off += int(step)
            elif kind == "freeze":  # clock stands still for a part of a buffer
                off -= int(min(size, 0.9) * NS)
        out.append(int(sc["start"]) + int(k * step) + off)
    del t, seq
    low = min(out)
    if low < 0:
        out = [x - low for x in out]
    return out


def run(sc, ctx):
    p = ctx.scratch / "rec.h5"
    if sc["what"] == "struct":
        return run_struct(sc, ctx, p)
    from shepherd_core import Reader, Writer
    from shepherd_core.data_models.base.calibration import CalibrationSeries
    from shepherd_core.data_models.task.emulation import Compression

    st = stamps(sc)
    if max(st) + 2 * NS * 10 >= 1 << 64:
        st = [x - max(st) + (1 << 62) for x in st]
        if min(st) < 0:
            return
    within = max(1, round(10_000 * sc["rate"])) if sc["rate"] else 10_000
    if sc["big"]:
        with Writer(p, compression=Compression.null, verbose=False) as w:
            w.ds_time.resize((sc["n"] * BUF,))
            w.ds_voltage.resize((sc["n"] * BUF,))
            w.ds_current.resize((sc["n"] * BUF,))
            blk = np.arange(BUF, dtype="u8") * np.uint64(within)
            for k in range(0, sc["n"], 50):
                ts = st[k : k + 50]
                w.ds_time[k * BUF : (k + len(ts)) * BUF] = np.concatenate([np.uint64(x) + blk for x in ts])
    else:
        left = list(st)
        per = -(-len(left) // sc["sessions"])
        first = True
        while left:
            cal = CalibrationSeries(time={"gain": 1e-9, "offset": sc["t_off"]}) if sc.get("t_off") else None
            with Writer(p, compression=Compression[sc["comp"]], modify_existing=not first, cal_data=cal, verbose=False) as w:
                for x in left[:per]:
                    v = np.full(BUF, 7, "u4")
                    if sc["scalar"] and sc["rate"] == 1.0 and not sc["ppm"] and sc["sessions"] == 1:
                        w.append_iv_data_raw(x, v, v)
                    else:
                        w.append_iv_data_raw(np.uint64(x) + np.arange(BUF, dtype="u8") * np.uint64(within), v, v)
                w.store_hostname("x")
            left = left[per:]
            first = False
    diffs = [b - a for a, b in zip(st, st[1:])]
    devs = [abs(d - NS) / NS for d in diffs]
    faulty = any(d >= 0.0599 for d in devs)
    unclear = any(0.045 < d < 0.0599 for d in devs)
    for at, kind, _ in sc["jumps"]:
        ctx.fault({"jump": "clock_jump", "freeze": "clock_jump", "back": "clock_back", "repeat": "clock_repeat", "lost": "clock_lost_buffer"}[kind])
    s = 400 if sc["sl"] is None else sc["sl"]
    badpos = [k + 1 for k, d in enumerate(devs) if d >= 0.0599]
    if any(k % s == 0 for k in badpos):
        ctx.probe("at_slice_boundary")
    if sc["n"] > 400 and sc["sl"] is None:
        ctx.probe("default_slice_crossed")
    with Disk(ctx.scratch, sc["disk"]) as d:
        with Reader(p, verbose=False) as r:
            if sc["sl"] is not None:
                r.max_elements = sc["sl"] * BUF
            ok = r.check_timediffs()
            valid = r.is_valid()
            again = r.check_timediffs()
        for k, n in d.fired():
            ctx.fault(k, n)
    ctx.simtime(max(0, st[-1] - st[0]) if max(st) - min(st) < 1e15 else 0)
    ctx.ev(sc["n"], sc["sl"], badpos, ok, valid)
    ctx.state(sc["n"], sc["sl"], tuple(k % s for k in badpos), ok)
    ctx.check(valid is True or valid == 1, "structure-refused", "intact structure reported as invalid")
    ctx.check(ok == again, "verdict-changes", f"{ok} then {again}")
    if faulty:
        ctx.check(not ok, "time-jump-accepted", f"{sc['n']} buffers, slices of {s}, steps off nominal by {[(k, round(devs[k - 1], 3)) for k in badpos[:5]]} (index of buffer)")
    elif not unclear:
        ctx.check(ok, "steady-clock-refused", f"{sc['n']} buffers, start {st[0]}, slices of {s}, worst step deviation {max(devs, default=0):.5f}")
        ctx.probe("steady_accepted")
    if sc["n"] == 1:
        ctx.probe("single_buffer")


def run_struct(sc, ctx, p):
    from shepherd_core import Reader, Writer

    with Writer(p, mode=sc["mode"], datatype=sc["dtype"], window_samples=100 if sc["dtype"] == "ivcurve" else 0, verbose=False) as w:
        if sc["n"]:
            w.append_iv_data_raw(np.arange(sc["n"], dtype="u8") * 10_000, np.full(sc["n"], 5, "u4"), np.full(sc["n"], 6, "u4"))
        w.store_hostname("x")
    bad, opens = False, True
    with h5py.File(p, "r+") as h:
        for o in sc["omit"]:
            if "data" not in h:
                continue
            bad = True
            if o == "mode":
                h.attrs.pop("mode", None)
            elif o == "mode_bad":
                h.attrs["mode"] = "dreaming"
            elif o == "dtype":
                h["data"].attrs.pop("datatype", None)
            elif o == "dtype_bad":
                h["data"].attrs["datatype"] = "ivfoo"
            elif o == "win":
                h["data"].attrs.pop("window_samples", None)
            elif o in ("time", "voltage", "current"):
                if o in h["data"]:
                    del h["data"][o]
                opens = False
            elif o.startswith(("gain", "off_")):
                ds = o.split("_")[1]
                if ds in h["data"]:
                    h["data"][ds].attrs.pop("gain" if o[0] == "g" else "offset", None)
            elif o == "data":
                del h["data"]
                opens = False
            elif o == "ivc_win0":
                h.attrs["mode"] = "harvester"
                h["data"].attrs["datatype"] = "ivcurve"
                h["data"].attrs["window_samples"] = 0
            elif o.startswith("emu_"):
                h.attrs["mode"] = "emulator"
                h["data"].attrs["datatype"] = "ivcurve" if o == "emu_ivcurve" else "isc_voc"
                if "window_samples" in h["data"].attrs:
                    h["data"].attrs["window_samples"] = 10
    # a later entry may repair an earlier one (e.g. mode set again): recompute from the file
    with h5py.File(p, "r") as h:
        bad = not (
            "data" in h and "mode" in h.attrs and h.attrs["mode"] in ("harvester", "emulator") and "datatype" in h["data"].attrs and "window_samples" in h["data"].attrs
            and all(d in h["data"] and "gain" in h["data"][d].attrs and "offset" in h["data"][d].attrs for d in ("time", "voltage", "current"))
        )
        if not bad:
            dt, md, win = h["data"].attrs["datatype"], h.attrs["mode"], h["data"].attrs["window_samples"]
            bad = dt not in ("ivsample", "ivcurve", "isc_voc") or (md == "emulator" and dt != "ivsample") or (dt == "ivcurve" and win < 1)
    try:
        with Reader(p, verbose=False) as r:
            try:
                verdict = bool(r.is_valid())
            except Exception as e:  # noqa: BLE001
                ctx.check(False, f"is-valid-raises-{type(e).__name__}", f"{sc['omit']}: {e}")
    except (KeyError, TypeError, ValueError, OSError) as e:
        ctx.check(not opens, "openable-file-refused", f"{sc['omit']}: {type(e).__name__} {e}")
        verdict = "refused"
    ctx.ev("struct", sc["mode"], sc["dtype"], sorted(sc["omit"]), verdict)
    ctx.state("struct", sc["mode"], sc["dtype"], tuple(sorted(sc["omit"])), verdict)
    if bad:
        ctx.check(verdict in (False, "refused"), "defect-accepted", f"{sc['omit']} ({sc['mode']}, {sc['dtype']})")
        ctx.probe("invalid_reported")
    else:
        ctx.check(verdict is True, "intact-structure-refused", f"{sc['mode']} {sc['dtype']} n={sc['n']}: {verdict}")
