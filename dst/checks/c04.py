"""C04: exports disturbed by process death and disk errors at every system call, then rerun against an undisturbed twin."""

from __future__ import annotations

import pickle
import shutil

import h5py
import numpy as np
import yaml

from ..h5util import snap
from ..sim import LEGAL_FAULTS, WRITE_FAULTS, gen_fault, place, process

RUNS = {"quick": 600, "thorough": 30000}
RULE = (
    "an export (csv, log, metadata, waveform csv, uart log, cut / downsampled recording, plot, multiplot, IVonne conversions) runs "
    "as its own process on a real directory, is killed before / inside / after a seeded system call or meets ENOSPC, EIO, a byte "
    "quota, short writes or EINTR, possibly twice; then it is rerun undisturbed and compared with a twin that was never disturbed; "
    "rows of the twin's output are compared with the recorded values."
)
REAL = ["shepherd_data.Reader exports", "shepherd_core.Reader exports", "CLI extract / extract-uart / extract-meta", "shepherd_data.ivonne.Reader", "h5py, matplotlib, pandas on a real file system"]
STUB = ["disk completion and process death through libsim"]
SHRINK = ["faults"]
MUST_HIT = ["crash", "torn", "ENOSPC", "EIO", "disk_full_quota"]
STATE_MEASURE = "hash of (export kind, fault kind, fault position, outcome, output present)"

KINDS = ["csv", "csv_raw", "csv_sys", "log", "meta", "wave", "uart", "cut", "ds", "plot", "multi", "ivcurve", "ivsample", "iscvoc", "cli_extract", "cli_meta", "cli_gpio"]


def warm() -> None:
    import matplotlib.pyplot as plt
    import pandas  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.signal  # noqa: F401
    import shepherd_data.cli  # noqa: F401
    import shepherd_data.ivonne  # noqa: F401
    import shepherd_data.mppt  # noqa: F401

    # fill font and style caches once, so that they are no part of a run
    fig, ax = plt.subplots(3, 1, figsize=(2, 2), layout="tight")
    ax[0].plot([0, 1], [0, 1], label="x")
    ax[0].legend()
    ax[0].set_xlabel("time [s]")
    import io

    fig.savefig(io.BytesIO(), format="png")
    plt.close(fig)


def gen(rng, tier, i):
    kind = KINDS[i % len(KINDS)]
    faults = []
    for _ in range(rng.choice([1, 1, 2])):
        faults.append([gen_fault(rng, WRITE_FAULTS) for _ in range(rng.choice([1, 1, 1, 2]))])
    if rng.random() < 0.1:
        faults = [[gen_fault(rng, LEGAL_FAULTS)]]
    return {
        "kind": kind,
        "seed": rng.randrange(1 << 30),
        "n": rng.choice([10_000, 20_000]),
        "comp": rng.choice(["lzf", "null", "gzip1"]),
        "factor": rng.choice([5, 7]) if kind == "cli_extract" else rng.choice([1, 2, 5, 7]),
        "logs": rng.choice([3, 400, 900]),
        "gpio": rng.choice([200, 1500]),
        "cal": rng.choice([None, [10.0 ** rng.randrange(-9, 1) * rng.choice([1, 3.25]), rng.choice([-1, 1]) * rng.random() * rng.choice([1e-6, 0.01, 3.0]), 10.0 ** rng.randrange(-12, -3), rng.choice([-1, 1]) * rng.random() * rng.choice([1e-9, 1e-4]), rng.choice([0, 0, 0.25, -7.0])]]),
        "cut": rng.choice([[None, None], [0.01, 0.08], [0.02, None]]),
        "dur": rng.choice([0.3, 0.5]),
        "pts": rng.choice([100, 400]),
        "faults": faults,
        "long": rng.random() < 0.15,
    }


def simplify(sc):
    for k, v in (("n", 10_000), ("logs", 3), ("gpio", 200), ("comp", "null"), ("cal", None), ("cut", [None, None]), ("long", False)):
        if sc.get(k) != v:
            yield {**sc, k: v}


def uart_events(text, t0, baud=115200):
    """Level changes of a UART line (idle high), 8N1, LSB first, in ns."""
    ev = [(t0 - 1_000_000, 1)]
    t = t0
    bit = 1e9 / baud
    lvl = 1
    for ch in text.encode():
        bits = [0] + [(ch >> k) & 1 for k in range(8)] + [1]
        for k, b in enumerate(bits):
            if b != lvl:
                ev.append((int(t + k * bit), b))
                lvl = b
        t += 11 * bit
    return ev


def base(sc):
    """Name of the recording, up to the limit of the file system (with room for the longest suffix of the outputs)."""
    if not sc.get("long"):
        return "rec"
    return "r" * {"csv": 244, "csv_raw": 244, "csv_sys": 243, "log": 243, "meta": 247, "wave": 229, "cli_gpio": 229, "cli_meta": 243}.get(sc["kind"], 180)


def build(d, sc):
    from shepherd_core import Writer
    from shepherd_core.data_models.base.calibration import CalibrationPair, CalibrationSeries
    from shepherd_core.data_models.task.emulation import Compression

    cal = CalibrationSeries()
    if sc.get("cal"):
        g1, o1, g2, o2, *t = sc["cal"]
        cal = CalibrationSeries(voltage=CalibrationPair(gain=g1, offset=o1), current=CalibrationPair(gain=g2, offset=o2), **({"time": CalibrationPair(gain=1e-9, offset=t[0])} if t and t[0] else {}))
    rs = np.random.RandomState(sc["seed"])
    n = sc["n"]
    if sc["kind"] in ("ivcurve", "ivsample", "iscvoc"):
        import pandas as pd

        k = 60
        t = np.arange(k) / 50.0
        df = pd.DataFrame({"time": t, "a": 0.02 + 0.01 * np.sin(t * 3 + rs.rand()), "b": 1e-9 * (1 + 0.1 * rs.rand(k)), "c": 7 + 0.1 * np.cos(t)})
        (d / "jogging.iv").write_bytes(pickle.dumps(df))
        return
    for nm in [base(sc) + ".h5"] + (["rec2.h5"] if sc["kind"] == "multi" else []):
        with Writer(d / nm, cal_data=cal, compression=Compression[sc["comp"]], verbose=False) as w:
            if sc["kind"] in ("csv", "csv_raw"):  # row-wise export is slow: short recording at 1 kHz
                n = 1200
            step = 10_000 if n != 1200 else 1_000_000
            w.append_iv_data_raw(1_700_000_000_000_000_000 + step * np.arange(n, dtype="u8"), rs.randint(10**8, 10**9, n).astype("u4"), rs.randint(10**5, 10**6, n).astype("u4"))
            w.store_hostname("sheep" + ("rec." if nm != "rec2.h5" else "rec2"))
            h = w.h5file
            g = h.create_group("sheep")
            m = sc["logs"]
            g["time"] = (1_700_000_000_000_000_000 + np.sort(rs.randint(0, 10**9, m))).astype("u8")
            g["level"] = rs.choice([10, 20, 30, 40], m).astype("u1")
            g.create_dataset("message", data=[f"message {k} {'x' * int(rs.randint(40))}" for k in range(m)], dtype=h5py.string_dtype())
            g = h.create_group("sysutil")
            g["time"] = (1_700_000_000_000_000_000 + np.arange(m) * 10**9).astype("u8")
            g["time"].attrs["description"] = "system time [s]"
            g["cpu"] = rs.randint(0, 100, m).astype("u1")
            g["cpu"].attrs["description"] = "cpu_util [%]"
            g["io"] = rs.randint(0, 10**6, (m, 3)).astype("u4")
            g["io"].attrs["description"] = "read [n], write [n], wait [n]"
            g = h.create_group("gpio")
            if sc["kind"] == "uart":
                ev = uart_events("hello World\r\n" * (sc["gpio"] // 40), 1_700_000_000_000_000_000)
                g["time"] = np.array([e[0] for e in ev], "u8")
                g["value"] = np.array([e[1] << 2 for e in ev], "u2")
            else:
                g["time"] = (1_700_000_000_000_000_000 + np.cumsum(rs.randint(1, 10**6, sc["gpio"]))).astype("u8")
                g["value"] = rs.randint(0, 16, sc["gpio"]).astype("u2")
            g["value"].attrs["description"] = yaml.safe_dump({0: {"name": "tgt_gpio0"}, 1: {"name": "tgt_gpio1"}, 2: {"name": "tgt_uart_tx"}})


def cli(*args):
    from shepherd_data import cli as m

    m.cli(args=[str(a) for a in args], standalone_mode=False)


def export(d, sc):
    """The operation under test; returns nothing, its documented outputs are files below d."""
    from shepherd_data import Reader

    k = sc["kind"]
    if k in ("ivcurve", "ivsample", "iscvoc"):
        from shepherd_data import ivonne

        with ivonne.Reader(d / "jogging.iv", verbose=False) as r:
            if k == "ivcurve":
                r.convert_2_ivcurves(d / "out.h5", duration_s=sc["dur"], pts_per_curve=sc["pts"])
            elif k == "ivsample":
                r.convert_2_ivsamples(d / "out.h5", duration_s=sc["dur"])
            else:
                r.upsample_2_isc_voc(d / "out.h5", duration_s=sc["dur"])
        return
    if k == "uart":
        return cli("extract-uart", d / (base(sc) + ".h5"))
    if k == "cli_extract":
        a = [x for x in (("--start", sc["cut"][0]), ("--end", sc["cut"][1])) if x[1] is not None]
        return cli("extract", *[y for x in a for y in x], "--ds-factor", sc["factor"], d / (base(sc) + ".h5"))
    if k == "cli_meta":
        return cli("extract-meta", d / (base(sc) + ".h5"))
    if k == "cli_gpio":
        return cli("extract-gpio", d / (base(sc) + ".h5"))
    with Reader(d / (base(sc) + ".h5"), verbose=False) as r:
        if k in ("csv", "csv_raw"):
            r.save_csv(r.h5file["data"], raw=k == "csv_raw")
        elif k == "csv_sys":
            r.save_csv(r.h5file["sysutil"])
        elif k == "log":
            r.save_log(r.h5file["sheep"])
        elif k == "meta":
            r.save_metadata()
        elif k == "wave":
            for n, wf in r.gpio_to_waveforms().items():
                r.waveform_to_csv(n, wf)
        elif k == "cut":
            r.cut_and_downsample_to_file(0.01, 0.09, sc["factor"])
        elif k == "ds":
            r.cut_and_downsample_to_file(None, None, sc["factor"] + 1)
        elif k == "plot":
            r.max_elements = 500
            r.plot_to_file(width=4, height=3)
        elif k == "multi":
            r.max_elements = 500
            with Reader(d / "rec2.h5", verbose=False) as r2:
                r2.max_elements = 500
                r.multiplot_to_file([r.generate_plot_data(), r2.generate_plot_data()], d / "all", width=4, height=3)


def content(p):
    if p.suffix != ".h5":
        return p.read_bytes()
    try:
        out = {}
        with h5py.File(p, "r") as h:
            out["/"] = {k: str(v) for k, v in h.attrs.items()}

            def visit(n, o):
                out[n] = [{k: str(v) for k, v in o.attrs.items()}, o[...].tobytes() if isinstance(o, h5py.Dataset) else None, str(getattr(o, "shape", ""))]

            h.visititems(visit)
        return out
    except (OSError, RuntimeError, KeyError) as e:
        return f"unreadable: {type(e).__name__}"


def outputs(d, src):
    """Documented outputs: everything that is no source file and no temporary of a dead process."""
    return {p.name: content(p) for p in sorted(d.iterdir()) if p.is_file() and p.name not in src and is_documented(p.name)}


def is_documented(n):
    return n.endswith((".csv", ".log", ".yaml", ".h5", ".png")) and not n.startswith(".")


def run(sc, ctx):
    a, b = ctx.scratch / "a", ctx.scratch / "b"
    a.mkdir()
    build(a, sc)
    shutil.copytree(a, b)
    src = snap(a)
    ref_r = process(export, a, sc, root=a)
    ctx.check(ref_r.status == "ok", "undisturbed-export-failed", lambda: f"{sc['kind']}: {ref_r.value[:3]}")
    ref = outputs(a, src)
    ctx.check(ref, "no-output", sc["kind"])
    for k, v in src.items():
        ctx.check((a / k).read_bytes() == v, "source-changed", k)
    rows(ctx, a, sc)
    ctx.ev(sc["kind"], sorted(ref), ref_r.ops)
    for plan in sc["faults"]:
        conc = [place(f, ref_r.ops) for f in plan]
        r = process(export, b, sc, root=b, plan=conc)
        ctx.absorb(r)
        if r.status == "died":
            ctx.fault(next(f["k"] for f in plan if f["k"] in ("crash", "torn", "crash_after")))
        ctx.steps += 1
        got = outputs(b, src)
        ctx.ev("disturbed", [f["k"] for f in plan], r.status, r.value[0] if r.status == "exc" else "", sorted(got))
        for k, v in src.items():
            ctx.check((b / k).read_bytes() == v, "source-changed", f"{k} after {r.status}")
        for n, c in got.items():
            ctx.check(n in ref, f"stray-output-{sc['kind']}", n)
            ctx.check(c == ref[n], f"partial-output-{sc['kind']}", lambda n=n, c=c: f"{n} is incomplete after the export {r.status} ({conc}): {size(c)} instead of {size(ref[n])}")
        if r.status == "ok":
            # the CLI may skip and log; the library call itself must not claim success without its output
            if sc["kind"] not in ("uart", "cli_extract", "cli_meta", "cli_gpio"):
                ctx.check(set(got) == set(ref), f"success-without-output-{sc['kind']}", f"{sorted(got)} != {sorted(ref)}")
        ctx.state(sc["kind"], tuple(f["k"] for f in plan), tuple(c.get("nth", c.get("bytes")) for c in conc), r.status, len(got))
    r = process(export, b, sc, root=b)
    ctx.check(r.status == "ok", f"rerun-failed-{sc['kind']}", lambda: f"{r.value[:3]}")
    got = outputs(b, src)
    ctx.check(set(got) == set(ref), f"rerun-differs-{sc['kind']}", f"{sorted(got)} != {sorted(ref)}")
    for n, c in got.items():
        ctx.check(c == ref[n], f"rerun-differs-{sc['kind']}", n)


def size(c):
    return len(c) if isinstance(c, bytes) else str(c)[:80] if isinstance(c, str) else {k: v[2] for k, v in c.items() if k != "/"}


def rows(ctx, d, sc):
    """The undisturbed output carries every selected row with the recorded value."""
    k = sc["kind"]
    if k in ("ivcurve", "ivsample", "iscvoc", "plot", "multi"):
        return
    with h5py.File(d / (base(sc) + ".h5"), "r") as h:
        if k in ("csv", "csv_raw", "csv_sys"):
            g = h["sysutil" if k == "csv_sys" else "data"]
            f = d / (base(sc) + (".sysutil.csv" if k == "csv_sys" else ".data.csv"))
            check_csv(ctx, f, g, raw=k == "csv_raw")
        elif k in ("cut", "ds", "cli_extract"):
            out = [p for p in d.iterdir() if p.suffix == ".h5" and p.name != base(sc) + ".h5"]
            src_t = h["data/time"][:]
            fac = sc["factor"] + (k == "ds")
            lo, hi = (1000, 9000) if k == "cut" else (0, len(src_t)) if k == "ds" else (round((sc["cut"][0] or 0) * 1e5), round(sc["cut"][1] * 1e5) if sc["cut"][1] else len(src_t))
            if not out and k == "cli_extract" and fac == 1 and sc["cut"] == [None, None]:
                check_csv(ctx, d / (base(sc) + ".data.csv"), h["data"], raw=False)  # the selection is the source itself
                return
            ctx.check(out, "no-cut-file", k)
            exp_t = src_t[lo:hi][::fac][: (hi - lo) // fac]
            with h5py.File(out[0], "r") as o:
                t = o["data/time"][:]
                n = len(exp_t) // 10_000 * 10_000 if fac == 1 else len(exp_t)
                ctx.check(np.array_equal(t, exp_t[:n]), "cut-times", f"{len(t)} of {len(exp_t)} rows")
                ctx.check(o["data/voltage"].shape == o["data/current"].shape == t.shape, "cut-lengths", "")
                if fac == 1:
                    for q in ("voltage", "current"):
                        ctx.check(np.array_equal(o["data"][q][:], h["data"][q][lo:hi][:n]), "cut-values", q)
                if k == "cli_extract" and t.size:
                    check_csv(ctx, out[0].with_suffix(".data.csv"), o["data"], raw=False)
        elif k in ("log", "cli_meta"):
            g = h["sheep"]
            lines = (d / (base(sc) + ".sheep.log")).read_text(encoding="utf-8-sig").splitlines()
            ctx.check(len(lines) == g["time"].shape[0], "log-rows", f"{len(lines)}")
            msg = g["message"][:]
            for ln, m in zip(lines, msg):
                ctx.check(m.decode() in ln, "log-content", ln)
            if k == "cli_meta":
                check_csv(ctx, d / (base(sc) + ".sysutil.csv"), h["sysutil"], raw=False)
                ctx.check("sheeprec." in (d / (base(sc) + ".yaml")).read_text(encoding="utf-8-sig"), "meta", "hostname")
        elif k in ("wave", "cli_gpio"):
            for pin, nm in enumerate(["tgt_gpio0", "tgt_gpio1", "tgt_uart_tx"]):
                lines = (d / (base(sc) + f".waveform.{nm}.csv")).read_text().splitlines()[1:]
                v = (h["gpio/value"][:] >> pin) & 1
                keep = np.concatenate(([True], v[1:] != v[:-1]))
                ctx.check(len(lines) == keep.sum(), "wave-rows", nm)
                sep = ";" if k == "cli_gpio" else ","
                ctx.check([int(x.split(sep)[1]) for x in lines] == v[keep].tolist(), "wave-values", nm)
                ts = h["gpio/time"][:][keep] / 1e9
                ctx.check(np.allclose([float(x.split(sep)[0]) for x in lines], ts, rtol=0, atol=1e-6), "wave-times", nm)
        elif k == "uart":
            n = len((d / (base(sc) + ".uart_from_wf.log")).read_text().splitlines())
            ctx.check(n >= sc["gpio"] // 40, "uart-rows", n)
        elif k == "meta":
            m = yaml.safe_load((d / (base(sc) + ".yaml")).read_text(encoding="utf-8-sig"))
            ctx.check(m["hostname"] == "sheeprec." and "voltage" in m["data"] and "sheep" in m, "meta", list(m))


def check_csv(ctx, f, g, raw):
    import datetime as dt

    lines = f.read_text(encoding="utf-8-sig").splitlines()[1:]
    t = g["time"][:]
    ctx.check(len(lines) == len(t), "csv-rows", f"{f.name}: {len(lines)} rows of {len(t)}")
    names = [n for n in g if n != "time"]
    cols = []
    for n in names:
        v = g[n][:].astype(float)
        if not raw:
            v = v * g[n].attrs.get("gain", 1.0) + g[n].attrs.get("offset", 0.0)
        cols.append(v.reshape(len(t), -1))
    exp = np.concatenate(cols, axis=1)
    got = np.array([[float(x) for x in ln.split(";")[1:]] for ln in lines])
    ctx.check(got.shape == exp.shape and np.allclose(got, exp, rtol=1e-9, atol=1e-15), "csv-values", lambda: f"{f.name}: first row {got[0][:4]} for recorded {exp[0][:4]}")
    gain, off = g["time"].attrs.get("gain", 1e-9), g["time"].attrs.get("offset", 0.0)
    for k in (0, len(t) // 2, len(t) - 1):
        s = dt.datetime.strptime(lines[k].split(";")[0].strip(), "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=dt.timezone.utc).timestamp()
        ctx.check(abs(s - (float(t[k]) * gain + off)) < 2e-6, "csv-time", lines[k][:40])
