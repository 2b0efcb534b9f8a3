"""C08: analyses of seeded recordings in seeded order under seeded internal slice sizes and short reads, against whole-recording computation."""

from __future__ import annotations

import re

import h5py
import numpy as np

from ..sim import Disk

RUNS = {"quick": 2500, "thorough": 40000}
RULE = (
    "a seeded recording (length, rate, calibration, signal shape) is analysed by one or more readers: energy, statistics, time-steps, "
    "metadata, down-sampling into memory and file, cutting, plot data, buffer reads, in seeded order, repeated, with the internal "
    "slice size drawn per call (1 sample up to beyond the recording) and short reads / EINTR from the disk."
)
REAL = ["shepherd_core.Reader.energy / _dset_statistics / _data_timediffs / get_metadata / read_buffers", "shepherd_data.Reader.downsample / cut_and_downsample_to_file / generate_plot_data", "h5py on a real file system"]
STUB = ["disk completion of reads through libsim", "slice size (existing attribute max_elements)"]
SHRINK = ["ops", "disk"]
STATE_MEASURE = "hash of (analysis, slices needed, last slice partial?, slice modulo factor)"
MUST_HIT = ["multi_slice", "partial_last_slice", "slice_not_multiple_of_factor", "repeated", "settled_constant", "cut_file", "cut_kept", "cut_frac", "cut_tail", "short"]


def warm() -> None:
    import scipy.signal  # noqa: F401
    import shepherd_data  # noqa: F401
    from shepherd_core import Writer  # noqa: F401


def gen(rng, tier, i):
    n = rng.choice([rng.randrange(2, 200), 1000, 10_000, rng.randrange(1000, 25_000), 30_000, rng.randrange(200, 3000)])
    ops = []
    for _ in range(rng.randrange(2, 8)):
        sl = rng.choice([None, n, n + 1, max(1, n // 2), max(1, n // 3), max(1, n - 1), max(1, n // 7), rng.randrange(max(1, n // 12), n + 1), 10_000, 1000])
        what = rng.choice(["energy", "stats", "stats", "tdiff", "meta", "ds", "ds", "ds", "dsfile", "cut", "cut", "plot", "buffers"])
        a = {"sl": sl}
        if what == "stats":
            a["ds"] = rng.choice(["time", "voltage", "current", "extra"])
        elif what in ("ds", "dsfile"):
            a.update(ds=rng.choice(["time", "voltage", "current"]), f=rng.choice([1, 2, 3, 5, 7, 10, 25, 100, 5.7, 1.4]), s=rng.choice([0, 0, rng.randrange(n)]), e=rng.choice([None, None, n, n + 50, rng.randrange(n)]))
        elif what == "cut":
            a.update(f=rng.choice([1, 2, 5, 7, 5.7, 1.4]), s=rng.choice([None, 0, 0.01, 0.02, 0.0101, 0.0102]), e=rng.choice([None, None, 0.09, 0.0904, 0.15, 99.0]))
            a["keep"] = rng.random() < 0.4
        elif what == "plot":
            a.update(s=rng.choice([None, 0.001, 0.0012]), e=rng.choice([None, None, 0.09]))
            a["sl"] = None
        elif what == "buffers":
            a.update(n=rng.choice([10_000, 1000, 7, max(1, n // 3)]), s=rng.choice([0, 1]), raw=rng.random() < 0.5)
        ops.append([what, a])
        if what == "cut" and a["keep"]:  # nearly the same request while the first result exists
            b = dict(a)
            k = rng.choice(["s", "e", "f"])
            b[k] = {"s": (a["s"] or 0) + rng.choice([1e-4, 3e-4, 1e-5]), "e": (a["e"] or 0.05) + rng.choice([1e-4, -2e-4, 1e-5]), "f": a["f"] + rng.choice([0.5, 0.4, 1])}[k]
            ops.append([what, b])
    return {"n": n, "step": rng.choice([10_000, 10_000, 10_000, 20_000, 1_000_000]), "shape": rng.choice(["const", "const", "rand", "ramp", "sine", "steps", "max"]), "seed": rng.randrange(1 << 30),
            "cal": rng.choice([None, {"gain": 2.5e-9, "offset": -1e-4}, {"gain": 1e-6, "offset": 0.5}, {"gain": 1e-6, "offset": 0.5, "t": 0.75}]), "readers": rng.choice([1, 1, 2]), "ops": ops,
            "disk": [] if rng.random() < 0.75 else [rng.choice([{"kind": "short", "ops": ["read"], "nth": rng.randrange(0, 40), "count": rng.choice([1, 5, -1]), "arg": rng.randrange(1, 999)}, {"kind": "errno", "ops": ["read"], "nth": rng.randrange(0, 40), "count": 1, "arg": "EINTR"}])]}


def simplify(sc):
    for k, v in (("cal", None), ("shape", "const"), ("readers", 1), ("step", 10_000), ("disk", [])):
        if sc[k] != v:
            yield {**sc, k: v}
    if sc["n"] > 20:
        yield {**sc, "n": sc["n"] // 2}


def signal_of(shape, n, rs):
    x = np.arange(n)
    if shape == "const":
        return np.full(n, rs.randint(1, 1 << 30)).astype("u4")
    if shape == "ramp":
        return (x * 1000 + 5).astype("u4")
    if shape == "sine":
        return (1e6 + 9e5 * np.sin(x / 37.0)).astype("u4")
    if shape == "steps":
        return ((x // 97 % 5) * 100_000).astype("u4")
    if shape == "max":
        return np.full(n, (1 << 31) - 1, "u4") + (x % 2).astype("u4")
    return rs.randint(0, 1 << 30, n).astype("u4")


def close(a, b, rel=1e-9):
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-30)


def run(sc, ctx):
    import shepherd_data
    from shepherd_core import Writer
    from shepherd_core.data_models.base.calibration import CalibrationSeries

    n, rs = sc["n"], np.random.RandomState(sc["seed"])
    p = ctx.scratch / "rec.h5"
    cal = None
    if sc["cal"]:
        q = {k: sc["cal"][k] for k in ("gain", "offset")}
        cal = CalibrationSeries(voltage=q, current={"gain": q["gain"] / 7, "offset": 0.0}, **({"time": {"gain": 1e-9, "offset": sc["cal"]["t"]}} if "t" in sc["cal"] else {}))
    with Writer(p, cal_data=cal, verbose=False) as w:
        cal = w.get_calibration_data()
        w.store_hostname("s")
    T = (1_600_000_000_000_000_000 + np.arange(n, dtype="u8") * sc["step"]).astype("u8")
    V, C = signal_of(sc["shape"], n, rs), signal_of(sc["shape"], n, rs)
    X = rs.randint(0, 1 << 16, n).astype("u4")
    with h5py.File(p, "r+") as h:  # any length, also one that is no whole number of buffers
        for k, v in (("time", T), ("voltage", V), ("current", C)):
            h["data"][k].resize((n,))
            h["data"][k][:] = v
        h.create_group("util").create_dataset("extra", data=X, chunks=(min(n, 1000),))
    vs, cs = V * cal.voltage.gain + cal.voltage.offset, C * cal.current.gain + cal.current.offset
    raw = {"time": T, "voltage": V, "current": C, "extra": X}
    memo: dict = {}
    counts: dict = {}
    readers = []
    with Disk(ctx.scratch, sc["disk"]) as disk:
        for _ in range(sc["readers"]):
            readers.append(shepherd_data.Reader(p, verbose=False))
        default_sl = readers[0].max_elements
        try:
            for k, (what, a) in enumerate(sc["ops"]):
                r = readers[k % len(readers)]
                sl = a["sl"] or default_sl
                r.max_elements = sl
                one(sc, ctx, r, what, a, sl, n, raw, vs, cs, cal, memo, counts, p)
                r.max_elements = default_sl
        finally:
            for r in readers:
                r.__exit__()
        for kk, nn in disk.fired():
            ctx.fault(kk, nn)


def slices(ctx, what, sl, n, f=1):
    if sl < n:
        ctx.probe("multi_slice")
        if n % sl:
            ctx.probe("partial_last_slice")
        if f > 1 and sl % int(f):
            ctx.probe("slice_not_multiple_of_factor")
    ctx.state(what, min(9, -(-n // sl)), bool(n % sl), sl % int(f))


def one(sc, ctx, r, what, a, sl, n, raw, vs, cs, cal, memo, counts, p):
    dt = sc["step"] * 1e-9 if n > 1 else 1e-5
    key = (what, repr(sorted((k, v) for k, v in a.items() if k != "sl")))
    if what == "energy":
        got = r.energy()
        want = float((vs * cs).sum() * dt)
        slices(ctx, what, sl, n)
        ctx.check(close(got, want, 1e-6), "energy", f"{got} != {want} (slices of {sl}, {n} samples)")
        res = got
    elif what == "stats":
        ds = r.h5file["util/extra"] if a["ds"] == "extra" else r.h5file["data"][a["ds"]]
        st = r.get_metadata(ds)["_dataset_info"].get("statistics")
        if st is None:  # not part of the metadata of timestamps
            st = r._dset_statistics(ds) if hasattr(r, "_dset_statistics") else None
        if st is None:
            return None
        x = raw[a["ds"]].astype(float)
        c = {"voltage": cal.voltage, "current": cal.current, "time": cal.time}.get(a["ds"])
        if c is not None:
            x = x * c.gain + c.offset
        slices(ctx, what, sl, n)
        want = {"mean": x.mean(), "min": x.min(), "max": x.max(), "std": x.std()}
        for q, v in want.items():
            scale = max(abs(x.max()), abs(x.min()), 1e-30)
            ctx.check(abs(st[q] - v) <= 1e-6 * max(abs(v), 1e-3 * scale if q == "std" else 1e-30), f"statistic-{q}", f"{a['ds']}: {st[q]} != {v} (slices of {sl}, {n} samples)")
        res = None
    elif what == "tdiff":
        res = sorted(r.get_metadata(r.ds_time)["_dataset_info"]["time_diffs_s"])
        slices(ctx, what, sl, n)
        want = [round(dt, 6)] if n > 10_000 else []
        ctx.check(len(res) == len(want) and all(close(x, y) for x, y in zip(res, want)), "timediffs", f"{res} != {want} (slices of {sl}, {n} samples)")
        res = str(res)
    elif what == "meta":
        md = r.get_metadata()
        want = float((vs * cs).sum() * dt)
        ctx.check(close(md["data"]["_group_info"]["energy_Ws"], want, 1e-6), "metadata-energy", md["data"]["_group_info"])
        st = md["data"]["voltage"]["_dataset_info"]["statistics"]
        ctx.check(close(st["mean"], vs.mean(), 1e-6), "metadata-mean", st)
        slices(ctx, what, sl, n)
        res = None
    elif what in ("ds", "dsfile"):
        f = max(1, int(a["f"]))
        e = n if a["e"] is None else min(n, a["e"])
        s = min(a["s"], e)
        src = {"time": r.ds_time, "voltage": r.ds_voltage, "current": r.ds_current}[a["ds"]]
        is_t = a["ds"] == "time"

        def go():
            if what == "ds":
                o = r.downsample(src, None, s, e, a["f"], is_time=is_t)
                return None if o is None else np.array(o)
            with h5py.File(ctx.scratch / "dst.h5", "w") as h:
                d = h.create_dataset("x", (0,), "u8" if is_t else "f8", maxshape=(None,), chunks=(1000,))
                return np.array(r.downsample(src, d, s, e, a["f"], is_time=is_t)[:])

        got = go()
        r.max_elements = max(n, 1) + 10
        ref = go()
        r.max_elements = sl
        slices(ctx, what, sl, e - s if e > s else 1, f)
        if e <= s:
            ctx.check(got is None or len(got) == 0, "downsample-of-nothing", got)
            return
        m = len(got)
        tag = f"{a['ds']} x{f} over {e - s} samples from {s}, slices of {sl}"
        ctx.check(m == len(ref), "downsample-length-slice-dependent", f"{tag}: {m} entries, {len(ref)} in one go")
        ctx.check(m in ((e - s) // f, -(-(e - s) // f)), "downsample-length", f"{tag}: {m} entries")
        lk = (a["f"], s, e)
        counts.setdefault(lk, (m, a["ds"]))
        ctx.check(counts[lk][0] == m, "downsample-lengths-differ", f"{tag}: {m} entries, {counts[lk]} before")
        if is_t:
            exp = raw["time"][s:e][::f][:m]
            ctx.check(np.array_equal(got.astype("f8"), exp.astype("f8")), "downsample-times", lambda: f"{tag}: first wrong entry {int(np.argmax(got.astype('f8') != exp.astype('f8')))}")
        else:
            scale = max(1.0, float(np.abs(ref).max()) if m else 1.0)
            ctx.check(np.allclose(got, ref, rtol=0, atol=1e-6 * scale), "downsample-slice-dependent", lambda: f"{tag}: entry {int(np.argmax(~np.isclose(got, ref, rtol=0, atol=1e-6 * scale)))} differs")
            if f == 1:
                ctx.check(np.array_equal(got, raw[a["ds"]][s:e][:m]), "downsample-by-one-changes", tag)
            elif sc["shape"] == "const" and m > 45:
                v = float(raw[a["ds"]][0])
                ctx.check(np.abs(got[45:] - v).max() <= 1e-3 * v, "constant-not-constant", f"{tag}: {got[45:50]} for constant {v}")
                ctx.probe("settled_constant")
        res = got.tobytes() if not is_t or True else None
    elif what == "cut":
        outs = []
        kept = memo.setdefault("files", {})  # results that stay, by their name
        for use in (sl, n + 10):
            r.max_elements = use
            try:
                q = r.cut_and_downsample_to_file(a["s"], a["e"], a["f"])
            except ValueError:
                outs.append(None)
                continue
            if q == p:  # neither cut nor reduced: that is the recording itself
                outs.append(None)
                continue
            if q in kept:  # the same again, has to be what was asked for
                ctx.probe("cut_again")
            with h5py.File(q, "r") as h:
                outs.append((q.name, {d: h["data"][d][:] for d in ("time", "voltage", "current")}, dict(h.attrs)["mode"], {d: (h["data"][d].attrs["gain"], h["data"][d].attrs["offset"]) for d in ("time", "voltage", "current")}))
            if q not in kept:
                if a["keep"] and use == n + 10:
                    kept[q] = True
                    ctx.probe("cut_kept")
                else:
                    q.unlink()
        r.max_elements = sl
        x, y = outs
        ctx.check((x is None) == (y is None), "cut-slice-dependent", f"{a}: {[o and o[0] for o in outs]}")
        if x is None:
            return
        ctx.probe("cut_file")
        slices(ctx, what, sl, n, a["f"])
        tag = f"{a} of {n} samples, slices of {sl}"
        ls = {d: len(v) for d, v in x[1].items()}
        ctx.check(len(set(ls.values())) == 1, "cut-lengths-differ", f"{tag}: {ls}")
        ctx.check(x[0] == y[0] and x[3] == y[3], "cut-slice-dependent", tag)
        for d in x[1]:
            ctx.check(len(x[1][d]) == len(y[1][d]) and np.allclose(x[1][d].astype("f8"), y[1][d].astype("f8"), rtol=0, atol=1.01 if d != "time" else 0), "cut-slice-dependent", f"{tag}: {d}")
        f = int(a["f"])
        nm = re.search(r"downsample_x([0-9]+)", x[0])
        ctx.check((int(nm[1]) if nm else 1) == f, "cut-named-after-other-factor", f"{tag}: {x[0]}")
        sps = round(1e9 / sc["step"])
        s0 = round(max(0, a["s"] or 0) * sps)
        e0 = min(n, round((a["e"] if a["e"] is not None else 1e9) * sps))
        exp = raw["time"][s0:e0][::f]
        m = ls["time"]
        ctx.check(np.array_equal(x[1]["time"], exp[:m]), "cut-times", f"{tag}: {x[1]['time'][:3]}.. instead of {exp[:3]}..")
        full = (e0 - s0) // f
        if sc["step"] * f == 10_000:
            full = full // 10_000 * 10_000  # recordings at default rate hold whole buffers
        ctx.probe("cut_frac", int(a["f"] != f))
        ctx.probe("cut_tail", int(e0 == n and full % 10_000 != 0))
        ctx.check(m <= -(-(e0 - s0) // f) and m >= full, "cut-count", f"{tag}: {m} entries instead of {full}")
        if f == 1:
            for d in ("voltage", "current"):
                ctx.check(np.array_equal(x[1][d], raw[d][s0 : s0 + m]), "cut-values", f"{tag}: {d}")
        elif sc["shape"] == "const" and m > 45:
            v = float(raw["voltage"][0])
            ctx.check(np.abs(x[1]["voltage"][45:].astype("f8") - v).max() <= max(1e-3 * v, 1), "cut-constant-not-constant", tag)
        res = x[1]["voltage"].tobytes()
    elif what == "plot":
        d = r.generate_plot_data(a["s"], a["e"])
        if d is None:
            res = None
        else:
            ls = {q: len(d[q]) for q in ("time", "voltage", "current")}
            ctx.check(len(set(ls.values())) == 1, "plot-lengths-differ", ls)
            sps = round(1e9 / sc["step"])
            s0 = round((a["s"] or 0) * sps)
            m = ls["time"]
            e0 = n if a["e"] is None else min(n, round(a["e"] * sps))
            if n <= 30_000:
                ctx.check(m == e0 - s0, "plot-count", f"{a}, {n} samples: {m} instead of {e0 - s0}")  # far below the default slice: nothing to reduce
                ctx.check(np.allclose(d["voltage"], vs[s0 : s0 + m]) and np.allclose(d["current"], cs[s0 : s0 + m]), "plot-values", f"{a}, {n} samples")
                ctx.check(np.allclose(d["time"], np.arange(s0, s0 + m) * dt, atol=1e-6), "plot-times", f"{a} {d['time'][:3]}")
            res = np.asarray(d["voltage"]).tobytes()
    elif what == "buffers":
        bl = a["n"]
        bufs = list(r.read_buffers(a["s"], n_samples_per_buffer=bl, is_raw=a["raw"]))
        cnt = max(0, n // bl - a["s"])
        ctx.check(len(bufs) == cnt, "buffer-count", f"{len(bufs)} instead of {cnt}")
        if bufs:
            v = np.concatenate([b[1] for b in bufs])
            ref = (raw["voltage"] if a["raw"] else vs)[a["s"] * bl : (a["s"] + cnt) * bl]
            ctx.check(np.allclose(v, ref, rtol=1e-12, atol=0), "buffer-values", f"{a}")
        res = None
    ctx.ev(what, sl, n)
    if res is not None:
        if (key, sl) in memo:
            ctx.probe("repeated")
            ctx.check(memo[(key, sl)] == res, "repeated-analysis-differs", f"{what} {a}")
        memo[(key, sl)] = res
    # the same call again, at once
    if what == "energy":
        ctx.check(r.energy() == res, "repeated-analysis-differs", "energy")
        ctx.probe("repeated")
