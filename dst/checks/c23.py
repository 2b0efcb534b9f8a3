"""C23: conversions of IVonne-traces under changing chunk sizes, with interruptions, against the recorded cell."""

from __future__ import annotations

import os
import math
import pickle
import zlib

import numpy as np

from dst import sim

RUNS = {"quick": 700, "thorough": 20000}
RULE = (
    "seeded traces of a solar cell (walks, steps of the light, dark phases, near-duplicates; 1 to 120 elements, five recording rates, start offsets) are converted "
    "with seeded duration, voltage limit, curve size and tracker; the conversion is repeated with other chunk sizes, may die or fail at a seeded system call and be "
    "rerun, may meet an existing output. Results are compared byte for byte over chunk sizes and with the single-diode model at and between the recorded instants."
)
REAL = ["shepherd_data.ivonne.Reader", "shepherd_data.mppt trackers", "shepherd_core.Writer, h5py on a real file system"]
STUB = ["chunk size (Reader.max_elements is set by the scheduler)", "disk completion and process death through libsim"]
SHRINK = ["chunks", "segs", "faults"]
STATE_MEASURE = "hash of (conversion, elements in last chunk, chunk size class, fault kind and outcome, dark?, clipped?, duration class)"
MUST_HIT = ["ivcurve", "ivsample_opt", "ivsample_voc", "iscvoc", "direct", "multi_chunk", "short_last_chunk", "tiny_trace", "dark", "clipped", "step", "uneven_curve", "trimmed", "odd_duration", "existing", "interrupted", "knots", "gap", "no_duration"]

KINDS = ["ivcurve", "ivcurve", "ivsample_opt", "ivsample_opt", "ivsample_voc", "ivsample_voc", "iscvoc", "iscvoc", "direct"]


def warm() -> None:
    import scipy.interpolate  # noqa: F401
    import shepherd_data.ivonne  # noqa: F401
    import shepherd_data.mppt  # noqa: F401


def gen(rng, tier, i):
    kind = rng.choice(KINDS)
    sps = rng.choice([50, 50, 50, 100, 10, 30, 250])
    n = rng.choice([1, 2, 3, 4, 5, rng.randrange(6, 30), rng.randrange(30, 120 if kind[:7] != "ivcurve" else 60)])
    if rng.random() < 0.6:
        n = max(n, sps // 8 + 3)  # long enough to fill a buffer
    rounding = kind[:7] != "ivcurve" and rng.random() < 0.07
    if rounding:
        sps, n = 50, rng.randrange(117, 124)
    segs = []
    left = n
    while left > 0:
        m = rng.randrange(1, left + 1) if rng.random() < 0.7 else 1
        segs.append([m, rng.choice(["walk", "walk", "flat", "dark", "low", "bright", "glitch"]), rng.randrange(1 << 20)])
        left -= m
    dur = rng.choice([None, None, round(rng.uniform(0, 1.2 * n / sps), rng.choice([1, 2, 4])), n / sps, n / sps + 5, max(0, n - 1) / sps, 0, 0.4 / sps])
    if rounding:
        dur = rng.choice([2.3, 2.32])  # whole buffers, whose number of elements suffers from float-rounding
    gaps = []
    if n > 2 and dur is None and rng.random() < 0.5:  # the recorder lost some elements
        gaps = [[rng.randrange(1, n), rng.choice([1, 1, 2, 7])] for _ in range(rng.randrange(1, 4))]
    ch = [1, 2, 3, max(1, n - 1), max(1, n // 2), max(1, n - 2), rng.randrange(1, n + 2)]
    return {
        "kind": kind, "sps": sps, "gaps": gaps, "segs": segs, "t0": rng.choice([0, 0, 0, 0.02, 5.0, round(rng.uniform(0, 100), 3)]), "dur": dur, "vmax": rng.choice([5.0, 5.0, 3.0, 2.1, round(rng.uniform(0.4, 5), 3)]),
        "pts": rng.choice([1000, 1000, 500, 300, 100, 250, 77, 1999, 1001] if kind == "ivcurve" else [1000, 1000, 500, 100, 64, 11]), "ratio": rng.choice([0.76, 0.8, 0.5, 0.99, 1.0, round(rng.uniform(0.05, 1), 3)]),
        "chunks": [[rng.choice(ch), rng.choice([0, 0, 0, 1, 777])] for _ in range(rng.randrange(1, 4))],
        "faults": [sim.gen_fault(rng, sim.WRITE_FAULTS) for _ in range(1 if rng.random() < 0.3 else 0)], "existing": rng.random() < 0.2, "pre": rng.random() < 0.5,
    }


def trace(sc):
    """Parameters of a single-diode model, as stored by the recorder."""
    a, b, c = [], [], []
    cur = [6e-4, 1e-6, 4.2]
    for m, how, seed in sc["segs"]:
        r = np.random.default_rng(seed)
        if how == "bright":
            cur = [float(r.uniform(5e-4, 40e-3)), float(10 ** r.uniform(-9, -6)), float(r.uniform(1.5, 6))]
        elif how == "low":
            cur = [float(10 ** r.uniform(-7, -4)), float(10 ** r.uniform(-12, -6)), float(r.uniform(2, 9))]
        for _ in range(m):
            if how in ("walk", "glitch"):
                f = 10 ** r.normal(0, 0.02 if how == "walk" else 0.7, 3)
                nxt = [cur[0] * f[0], cur[1] * f[1], cur[2] * (1 + 0.02 * r.normal())]
                if how == "walk":
                    cur = nxt
            else:
                nxt = cur
            a.append(0.0 if how == "dark" else min(nxt[0], 0.05))
            b.append(max(nxt[1], 1e-13))
            c.append(min(max(nxt[2], 1.0), 12.0))
    return np.array(a), np.array(b), np.array(c)


def cell(a, b, c, v):
    return np.maximum(0.0, a - b * (np.exp(c * v) - 1.0))


def convert(path, out, sc, max_elements):
    """Run one conversion; the chunk size is set on every reader and writer that gets created."""
    from shepherd_core.reader import Reader as CoreReader
    from shepherd_data import ivonne
    from shepherd_data import mppt

    orig = CoreReader.__init__

    def init(self, *args, **kwargs):
        orig(self, *args, **kwargs)
        if max_elements:
            self.max_elements = max_elements

    CoreReader.__init__ = init
    try:
        with ivonne.Reader(path, samplerate_sps=sc["sps"], verbose=False) as r:
            if sc["kind"] == "ivcurve":
                r.convert_2_ivcurves(out, v_max=sc["vmax"], pts_per_curve=sc["pts"], duration_s=sc["dur"])
            elif sc["kind"] == "iscvoc":
                r.upsample_2_isc_voc(out, v_max=sc["vmax"], duration_s=sc["dur"])
            elif sc["kind"] == "ivsample_opt":
                tr = None if sc["pts"] == 1000 and sc["pre"] else mppt.OptimalTracker(sc["vmax"], sc["pts"])
                r.convert_2_ivsamples(out, v_max=sc["vmax"], duration_s=sc["dur"], tracker=tr)
            else:
                r.convert_2_ivsamples(out, v_max=sc["vmax"], duration_s=sc["dur"], tracker=mppt.OpenCircuitTracker(sc["vmax"], sc["pts"], sc["ratio"]))
    finally:
        CoreReader.__init__ = orig


def content(path):
    import h5py

    with h5py.File(path, "r") as f:
        out = {k: f["data"][k][:] for k in ("time", "voltage", "current")}
        attrs = {k: {x: f["data"][k].attrs[x] for x in ("gain", "offset")} for k in out}
        meta = (f["data"].attrs["datatype"], int(f["data"].attrs["window_samples"]), f.attrs["mode"], f.attrs.get("hostname"))
    return out, attrs, meta


def same(x, y):
    return all(np.array_equal(x[0][k], y[0][k]) for k in x[0]) and x[1:] == y[1:]


def run(sc, ctx):
    import pandas as pd

    a, b, c = trace(sc)
    n = len(a)
    if n == 0:
        return
    d = ctx.scratch
    pos = np.arange(n)
    for at, lost in sc.get("gaps", []):
        pos[at:] += lost
        ctx.fault("elements_lost", lost)
    ctx.probe("gap", int(bool(sc.get("gaps"))))
    t = sc["t0"] + pos / sc["sps"]
    df = pd.DataFrame({"a": a, "b": b, "c": c, "time": t})
    src, out = d / "in.iv", d / "out.h5"
    with src.open("wb") as fh:
        pickle.dump(df, fh)
    raw = src.read_bytes()
    kind = sc["kind"]
    ctx.probe(kind)
    ctx.probe("tiny_trace", int(n < 5))
    dark = bool((a == 0).any())
    ctx.probe("dark", int(dark))
    ctx.probe("step", int(n > 1 and bool((np.abs(np.diff(a)) > 0.5 * a.max()).any()) and a.max() > 0))
    if kind == "direct":
        return direct(sc, ctx, df, a, b, c)

    if sc["existing"]:
        ctx.probe("existing")
        out.write_bytes(b"something precious")
        age = [0, -400 * 86400, 86400][len(raw) % 3]  # older, as old and younger than the trace
        os.utime(out, (src.stat().st_mtime + age,) * 2)
        convert(src, out, sc, None)
        ctx.check(out.read_bytes() == b"something precious" and sorted(p.name for p in d.iterdir()) == ["in.iv", "out.h5"], "existing", "existing output was changed")
        out.unlink()

    convert(src, out, sc, None)
    ctx.check(out.exists(), "no-output", "conversion returned without an output")
    ref = content(out)
    up = round(100_000 / sc["sps"])
    for rows, more in sc["chunks"]:
        p = d / "other.h5"
        ctx.probe("multi_chunk", int(rows < n))
        ctx.probe("short_last_chunk", int(rows > 1 and n > rows and n % rows in (1, 2)))
        convert(src, p, sc, rows * up + more)
        ctx.check(same(content(p), ref), "chunk-size", f"{kind}: output differs for a chunk of {rows} elements (+{more} samples)")
        ctx.state(kind, min(rows, 4), n % rows, dark)
        p.unlink()

    for f in sc["faults"]:
        p = d / "dist" / "other.h5"
        p.parent.mkdir(exist_ok=True)
        cnt = sim.process(convert, src, p, sc, None, root=p.parent)
        ctx.check(cnt.status == "ok" and same(content(p), ref), "repeat", f"second conversion: {cnt}")
        p.unlink()
        res = sim.process(convert, src, p, sc, None, root=p.parent, plan=[sim.place(f, cnt.ops)])
        ctx.absorb(res)
        ctx.probe("interrupted", int(res.status != "ok"))
        ctx.state(kind, f["k"], res.status, p.exists())
        if p.exists():
            ctx.check(same(content(p), ref), "partial", f"{kind}: incomplete output under its final name after {f['k']} ({res.status})")
        res = sim.process(convert, src, p, sc, None, root=p.parent)
        ctx.check(res.status == "ok" and p.exists() and same(content(p), ref), "rerun", f"{kind}: rerun after {f['k']} gives something else: {res}")
    ctx.check(src.read_bytes() == raw, "input", "the input was changed")

    judge(sc, ctx, ref, a, b, c, t, pos)
    ctx.ev(kind, n, len(ref[0]["time"]), zlib.crc32(ref[0]["voltage"].tobytes()), zlib.crc32(ref[0]["current"].tobytes()), sc["chunks"], [f["k"] for f in sc["faults"]])
    ctx.simtime(len(ref[0]["time"]) * 10_000)


def judge(sc, ctx, ref, a, b, c, t, pos):
    kind, sps, vmax, pts = sc["kind"], sc["sps"], sc["vmax"], sc["pts"]
    n = len(a)
    data, cal, meta = ref
    win = pts if kind == "ivcurve" else 0
    ctx.check(meta == ({"ivcurve": "ivcurve", "iscvoc": "isc_voc"}.get(kind, "ivsample"), win, "harvester", "IVonne"), "meta", str(meta))
    m = len(data["time"])
    ctx.check(m == len(data["voltage"]) == len(data["current"]), "length", "columns differ")

    # -- covered duration
    full = pos[-1] / sps
    lo = hi = full
    if sc["dur"] is not None:
        lo, hi = min(full, math.floor(sc["dur"] * sps + 1e-6) / sps), min(full, sc["dur"])
        ctx.probe("trimmed", int(hi < full))
        ctx.probe("no_duration", int(sc["dur"] == 0 and full > 0))
        ctx.probe("odd_duration", int(hi < full and abs(sc["dur"] * sps - round(sc["dur"] * sps)) > 1e-6))
    if kind == "ivcurve":  # the last curve may begin before and end after the limit
        hi = math.ceil(round(hi * 1e5, 3) / pts) * pts / 1e5
        ctx.probe("uneven_curve", int((100_000 // sps) % pts != 0))
    nlo, nhi = int(round(lo * 1e5, 3) // 10_000 * 10_000), int(math.ceil(round(hi * 1e5, 3)) // 10_000 * 10_000)
    ctx.check(nlo <= m <= nhi, "duration", f"{kind}: {m / 1e5} s for a trace of {full} s and a duration of {sc['dur']}, expected {nlo / 1e5} to {nhi / 1e5}")
    if m == 0:
        return

    # -- time
    ns = data["time"].astype("i8")
    ctx.check(cal["time"]["gain"] == 1e-9 and cal["time"]["offset"] == 0, "time-cal", str(cal["time"]))
    ctx.check(bool((np.diff(ns) == 10_000).all()) and abs(int(ns[0]) - round(t[0] * 1e9)) <= 1, "time", f"{kind}: timestamps are not even, steps {np.unique(np.diff(ns))[:5]}, start {ns[0]}")

    gv, gi = cal["voltage"]["gain"], cal["current"]["gain"]
    v = data["voltage"] * gv + cal["voltage"]["offset"]
    i = data["current"] * gi + cal["current"]["offset"]
    qv, qi = 1.01 * gv + 1e-12, 1.01 * gi + 1e-15
    rel = np.arange(m) / 1e5  # time since start

    if kind == "ivcurve":
        proto = np.linspace(0, vmax, pts)
        w = m // pts
        V, I = v[: w * pts].reshape(w, pts), i[: w * pts].reshape(w, pts)
        ctx.check(bool((np.abs(V - proto) <= qv).all()), "sweep", "voltages of the curves are not the sweep")
        ctx.check(bool((np.diff(I, axis=1) <= qi).all()), "curve-shape", "current of a curve increases with voltage")
        at = rel[::pts][:w] * sps
        k = np.clip(np.searchsorted(pos, np.floor(at + 1e-6), side="right") - 1, 0, n - 2)
        x = (at - pos[k]) / (pos[k + 1] - pos[k])
        for j in range(w):
            p, q = k[j], k[j] + 1
            if abs(x[j]) < 1e-6:
                q = p
                ctx.probe("knots")
            elif abs(x[j] - 1) < 1e-6:
                p = q
            alo, ahi = min(a[p], a[q]), max(a[p], a[q])
            blo, bhi = min(b[p], b[q]), max(b[p], b[q])
            clo, chi = min(c[p], c[q]), max(c[p], c[q])
            tol = 1e-7 * (ahi + bhi * (np.exp(chi * proto) - 1)) + qi
            ok = (I[j] >= cell(alo, bhi, chi, proto) - tol) & (I[j] <= cell(ahi, blo, clo, proto) + tol)
            if not ok.all():
                e = int(np.argmin(ok))
                ctx.check(False, "curve", f"curve {j} at {proto[e]:.3f} V has {I[j][e]} A, cell gives {cell(a[p], b[p], c[p], proto[e])} and {cell(a[q], b[q], c[q], proto[e])} A")
        return

    with np.errstate(over="ignore"):
        voc = np.minimum(np.log(a / b + 1) / c, vmax)
    ctx.probe("clipped", int((voc == vmax).any()))
    # -- what the recorded instants have to give, as interval
    grid = np.linspace(0, vmax, pts)
    if kind == "iscvoc":
        vl = vh = voc
        il = ih = a
    elif kind == "ivsample_opt":
        vl, vh, il, ih = (np.zeros(n) for _ in range(4))
        for k in range(n):
            cur = cell(a[k], b[k], c[k], grid)
            pw = grid * cur
            cand = np.nonzero(pw >= pw.max() * (1 - 1e-9))[0] if pw.max() > 0 else np.arange(pts)
            vl[k], vh[k], il[k], ih[k] = grid[cand].min(), grid[cand].max(), cur[cand].min(), cur[cand].max()
    else:
        vl, vh, il, ih = (np.zeros(n) for _ in range(4))
        for k in range(n):
            aim = sc["ratio"] * voc[k]
            cand = [max(0, int((grid < x).sum()) - 1) for x in (aim * (1 - 1e-9) - 1e-12, aim * (1 + 1e-9) + 1e-12)]
            vs = grid[cand[0] : cand[1] + 1]
            cur = cell(a[k], b[k], c[k], vs)
            vl[k], vh[k], il[k], ih[k] = vs.min(), vs.max(), cur.min(), cur.max()
    # -- at recorded instants
    step = 100_000 / sps
    if abs(step - round(step)) < 1e-9:
        step = round(step)
        ks = np.nonzero(pos * step < m)[0]
        idx = pos[ks] * step
        ctx.probe("knots", len(ks))
        for q, z, l, h, tol in (("voltage", v, vl, vh, qv), ("current", i, il, ih, qi)):
            ok = (z[idx] >= l[ks] - tol) & (z[idx] <= h[ks] + tol)
            if not ok.all():
                e = int(np.argmin(ok))
                ctx.check(False, "knot", f"{kind}: {q} at element {ks[e]} is {z[idx[e]]}, the cell gives {l[ks[e]]} .. {h[ks[e]]}")
        if kind == "ivsample_opt":  # no fixed voltage yields more energy
            e = float((v[idx] * i[idx]).sum())
            best = max(float(sum(cell(a[k], b[k], c[k], fix) * fix for k in ks)) for fix in grid[:: max(1, pts // 50)])
            ctx.check(e >= best - len(ks) * (vmax * qi + a.max() * qv) - 1e-9 * best, "energy", f"{e} < {best} of a fixed voltage")
    # -- between recorded instants
    k = np.clip(np.searchsorted(pos, np.floor(rel * sps + 1e-6), side="right") - 1, 0, n - 2)
    for q, z, l, h, tol in (("voltage", v, vl, vh, qv), ("current", i, il, ih, qi)):
        zl, zh = np.minimum(l[k], l[k + 1]), np.maximum(h[k], h[k + 1])
        ok = (z >= zl - tol) & (z <= zh + tol)
        if not ok.all():
            e = int(np.argmin(ok))
            ctx.check(False, "between", f"{kind}: {q} {z[e]} at sample {e} (element {rel[e] * sps:.3f}) is outside of its neighbours {zl[e]} .. {zh[e]}")


def direct(sc, ctx, df, a, b, c):
    """Trackers used on their own, with and without known open-circuit voltage."""
    from shepherd_data import mppt

    vmax, pts = sc["vmax"], max(sc["pts"], 11)
    grid = np.linspace(0, vmax, pts)
    opt = mppt.OptimalTracker(vmax, pts).process(df.copy())
    voc = mppt.OpenCircuitTracker(vmax, pts, sc["ratio"]).process(df.copy())
    ctx.check(len(opt) == len(voc) == len(a), "direct-len", "elements were lost")
    for k in range(len(a)):
        cur = cell(a[k], b[k], c[k], grid)
        for name, r in (("optimal", opt), ("open-circuit", voc)):
            v, i = float(r["v"].iloc[k]), float(r["i"].iloc[k])
            tol = 1e-9 * (a[k] + b[k] * math.exp(c[k] * vmax)) + 1e-15
            ctx.check(0 <= v <= vmax and abs(i - cell(a[k], b[k], c[k], v)) <= tol, "direct-curve", f"{name}: {v} V, {i} A is not on the curve of element {k}")
        ctx.check(float(opt["v"].iloc[k]) * float(opt["i"].iloc[k]) >= (grid * cur).max() * (1 - 1e-9), "direct-opt", f"element {k}: optimal tracker misses the maximum")
        # the approximated open-circuit voltage is where 5 % of the short-circuit current are left
        oc = grid[np.argmax(cur <= 0.05 * cur[0])] if (cur <= 0.05 * cur[0]).any() else vmax
        want, got = sc["ratio"] * oc, float(voc["v"].iloc[k])
        tol = 2.01 * vmax / (pts - 1)
        ctx.check(abs(got - want) <= tol, "direct-voc", f"element {k}: open-circuit tracker chose {got} V, expected about {want} V (open-circuit voltage ~{oc} V)")
    ctx.ev("direct", opt["v"].tolist(), voc["v"].tolist())
    ctx.state("direct", len(a), bool((a == 0).any()))
