"""C15: file-to-file simulations of sources and harvesters under failing targets, damaged inputs, full disks and process death."""

from __future__ import annotations

import os
import random

import h5py
import numpy as np

from .. import h5util
from ..sim import WRITE_FAULTS, gen_fault, place, process
from . import c12

RUNS = {"quick": 500, "thorough": 9000}
RULE = (
    "seeded recordings (samples or swept IV-curves, calibration, 0..3 whole buffers and a rest, sample interval, recorded configuration or not) are simulated "
    "with seeded sources or harvesters and targets, with / without output and monitoring; disturbed runs: target raises (any exception, at any step), undecodable "
    "input chunk, read error, ENOSPC / EIO / quota on output, process death at any system call, output = input, output not creatable; then repeated in the "
    "same or another process. Output, timestamps, energy and open files are compared with stepping an own model over the same samples."
)
REAL = ["simulate_source, simulate_harvester", "VirtualSourceModel & parts, target models", "Reader, Writer, h5py / HDF5 on a real file system", "real processes"]
STUB = ["disk completion and process death through libsim", "time (one sample = one interval of simulated time)", "buffer size knob of the library (250 / 1000 / 10000 samples)"]
SHRINK = ["faults"]
STATE_MEASURE = "hash of (source or harvester, datatype, buffers, fault kind, outcome, whole buffers in the output)"
MUST_HIT = ["source", "harvester", "ivcurve", "rest_dropped", "target_raised", "input_damaged", "write_disturbed", "process_died", "output_is_input", "monitored", "no_output", "empty_input", "descending_sweep", "fast_rate", "output_existed"]

ALGOS = ["mppt_opt", "mppt_voc", "mppt_po", "cv20", "cv10", "mppt_bq_solar"]


def warm() -> None:
    import matplotlib

    matplotlib.use("Agg")
    import shepherd_core.data_models  # noqa: F401
    from matplotlib import pyplot  # noqa: F401
    from shepherd_core import vsource  # noqa: F401


def gen(rng, tier, i):
    c = c12.gen(rng, tier, i)
    buf = rng.choice([250, 250, 1000, 10_000])
    n_buf = rng.choice([0, 1, 1, 2, 3, 3, 5]) if buf < 10_000 else rng.choice([1, 1, 2])
    iv = rng.random() < 0.5
    faults = []
    for _ in range(rng.randrange(0, 4)):
        r = rng.random()
        if r < 0.3:
            faults.append({"k": "target", "pos": rng.random(), "exc": rng.choice(["ValueError", "KeyboardInterrupt", "ZeroDivisionError", "OSError", "StopIteration"])})
        elif r < 0.45:
            faults.append({"k": "rot", "ds": rng.choice(["voltage", "current", "time"]), "which": rng.randrange(6), "seed": rng.randrange(1 << 20)})
        elif r < 0.55:
            faults.append(gen_fault(rng, ["EIO-read"]))
        elif r < 0.85:
            faults.append(gen_fault(rng, WRITE_FAULTS))
        else:
            faults.append({"k": rng.choice(["same", "symlink", "dir", "nodir", "unwritable"])})
    return {
        "src": rng.random() < 0.6, "c": {k: c[k] for k in ("cfg", "algo")}, "algo": rng.choice(ALGOS), "iv": iv, "down": rng.random() < 0.35, "pts": rng.choice([10, 20, 50]), "dwell": rng.choice([1, 1, 2]), "vtop": rng.uniform(1, 5), "buf": buf, "n": n_buf * buf + rng.choice([0, 0, 1, buf // 2, buf - 1]),
        "cal": rng.choice(["default", "hrv", "emu", [rng.uniform(1e-6, 1e-5), rng.uniform(0, 1e-3), rng.uniform(1e-9, 1e-8), 0]]), "step": rng.choice([10_000, 10_000, 10_000, 1_000, 20_000]), "start": rng.choice([0, 1_700_000_000 * 10**9]), "conf": rng.random() < 0.3, "gap": rng.random() < 0.15,
        "seed": rng.randrange(1 << 30), "tgt": rng.choice(["r", "diode", "ci", "cp", "free"]), "monitor": rng.random() < (0.5 if buf == 10_000 else 0), "faults": faults, "lzf": rng.choice(["lzf", "gzip1", "null"]), "old": rng.choice([None, None, "recording", "text"]),
    }


def make_input(sc, path):
    from shepherd_core import Writer
    from shepherd_core.data_models import CalibrationEmulator, CalibrationHarvester, CalibrationSeries
    from shepherd_core.data_models.base.calibration import CalibrationPair
    from shepherd_core.data_models.task.emulation import Compression

    cal = {"default": None, "hrv": CalibrationHarvester(), "emu": CalibrationEmulator()}.get(sc["cal"]) if isinstance(sc["cal"], str) else CalibrationSeries(voltage=CalibrationPair(gain=sc["cal"][0], offset=sc["cal"][1]), current=CalibrationPair(gain=sc["cal"][2], offset=sc["cal"][3]))
    with Writer(path, mode="harvester", datatype="ivcurve" if sc["iv"] else "ivsample", window_samples=sc["pts"] * sc["dwell"] if sc["iv"] else None, cal_data=cal, compression=Compression[sc["lzf"]], verbose=False) as w:
        n = sc["n"]
        rs = np.random.RandomState(sc["seed"] % (1 << 31))
        t = sc["start"] + np.arange(n, dtype="u8") * np.uint64(sc["step"])
        if sc["gap"] and n > sc["buf"]:
            t[sc["buf"] :] += np.uint64(12_345_678_900)
        if sc["iv"]:
            ph = (np.arange(n) // sc["dwell"]) % sc["pts"]
            v = sc["vtop"] * ph / (sc["pts"] - 1)
            if sc["down"]:
                v = sc["vtop"] - v
            voc = sc["vtop"] * (0.5 + 0.4 * np.sin(np.arange(n) / 700))
            i = 0.02 * np.clip(1 - (v / voc) ** 6, 0, None)
        else:
            v = np.abs(2.5 + 2 * np.sin(np.arange(n) / 300) + rs.randn(n) * 0.05)
            i = np.abs(0.01 + 0.01 * np.sin(np.arange(n) / 500) + rs.randn(n) * 1e-4)
        c = w.get_calibration_data()
        v, i = c.voltage.si_to_raw(v), c.current.si_to_raw(i)
        w.append_iv_data_raw(t, v, i)
        if sc["conf"]:
            w.store_config({"virtual_harvester": {"voltage_step_mV": sc["vtop"] * 1e3 / (sc["pts"] - 1)}})
    with h5py.File(path, "r+") as h:  # keep what doesn't fill a buffer
        for nm, x in (("time", t), ("voltage", v), ("current", i)):
            ds = h["data"][nm]
            old = ds.shape[0]
            ds.resize((n,))
            ds[old:] = x[old:]


def knob(buf):
    from shepherd_core import Reader, Writer

    Reader.samples_per_buffer = buf
    Writer._chunk_shape = (buf,)


def configs(sc):
    from shepherd_core.data_models import VirtualHarvesterConfig

    if not sc["src"]:
        return VirtualHarvesterConfig(name=sc["algo"])
    return c12.build({**sc["c"], "cal": None})[0]


class Fail(Exception):
    pass


def make_target(sc, fail_at=None, exc=None):
    from shepherd_core.vsource import target_model as tm

    class Tgt(tm.TargetABC):
        def __init__(self):
            self.inner = {"r": tm.ResistiveTarget(1000, controlled=True), "diode": tm.diode_target_burn, "ci": tm.mcu_msp430fr, "cp": tm.mcu_nrf52840}.get(sc["tgt"])
            self.rng = random.Random(sc["seed"])
            self.n = 0

        def step(self, voltage_uV, *, pwr_good):
            if self.n == fail_at:
                raise {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "ZeroDivisionError": ZeroDivisionError, "OSError": OSError, "StopIteration": StopIteration}[exc]("target gave up")
            self.n += 1
            if self.inner is None:
                return self.rng.random() * 3e7 * pwr_good
            return self.inner.step(voltage_uV, pwr_good=pwr_good)

    return Tgt()


def reference(sc, path):
    """Own stepping over the same samples; (v_raw, i_raw, t, energy)."""
    from shepherd_core import Reader
    from shepherd_core.data_models import CalibrationEmulator, CalibrationHarvester, CalibrationSeries, EnergyDType
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    from shepherd_core.vsource import VirtualSourceModel
    from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel

    knob(sc["buf"])
    cfg = configs(sc)
    dt = EnergyDType.ivcurve if sc["iv"] else EnergyDType.ivsample
    with Reader(path, verbose=False) as r:
        step_V = r.get_voltage_step()
    win = sc["pts"] * sc["dwell"] if sc["iv"] else 0
    with h5py.File(path) as h:
        t = h["data/time"][:]
        gv, ov = h["data/voltage"].attrs["gain"], h["data/voltage"].attrs["offset"]
        gi, oi = h["data/current"].attrs["gain"], h["data/current"].attrs["offset"]
        vr, ir = h["data/voltage"][:], h["data/current"][:]
    n = len(t) // sc["buf"] * sc["buf"]
    v = (np.maximum(0, vr * gv + ov) * 1e6)[:n]
    i = (np.maximum(0, ir * gi + oi) * 1e9)[:n]
    if sc["src"]:
        cal = CalibrationEmulator()
        m = VirtualSourceModel(cfg, cal, dt, window_size=win, voltage_step_V=step_V)
        tgt = make_target(sc)
        # the harvest is given in whole uV and nA, just like the PRU gets it
        io = 0
        V, C = np.zeros(n), np.zeros(n)
        for k in range(n):
            V[k] = m.iterate_sampling(int(v[k]), int(i[k]), io)
            io = tgt.step(int(V[k]), pwr_good=m.cnv.get_power_good())
            C[k] = io
        co = CalibrationSeries.from_cal(cal)
    else:
        m = VirtualHarvesterModel(HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in=dt, window_size=win, voltage_step_V=step_V))
        V, C = np.zeros(n), np.zeros(n)
        for k in range(n):
            V[k], C[k] = m.ivcurve_sample(int(v[k]), int(i[k]))
        co = CalibrationSeries.from_cal(CalibrationHarvester())
    dts = float(int(t[-1]) - int(t[0])) * 1e-9 / (len(t) - 1) if len(t) > 1 else 1e-5
    Vraw = np.clip((V * 1e-6 - co.voltage.offset) / co.voltage.gain, 0, None)
    Craw = np.clip((C * 1e-9 - co.current.offset) / co.current.gain, 0, None)
    return {"t": t[:n], "v": Vraw, "i": Craw, "e": float((V * C).sum() * 1e-15 * dts), "step": step_V, "gv": co.voltage.gain, "gi": co.current.gain, "ov": co.voltage.offset, "oi": co.current.offset}


def simulate(sc, inp, out, root, fail_at=None, exc=None, monitor=False, again=False):
    """In a process: simulate, report what happened and which files stayed open; optionally once more without fault."""
    from shepherd_core.vsource import simulate_harvester, simulate_source

    knob(sc["buf"])
    cfg = configs(sc)
    before = cfg.model_dump()

    def go(f, e):
        if sc["src"]:
            return simulate_source(cfg, make_target(sc, f, e), inp, out, monitor_internals=monitor)
        return simulate_harvester(cfg, inp, out)

    rep = {"open": [], "changed": False}
    try:
        rep["res"] = ("ok", float(go(fail_at, exc)))
        rep["open"] = h5util.fds(root)
    except BaseException as e:  # noqa: BLE001
        rep["open"] = h5util.fds(root)
        tb = e.__traceback__
        where = []
        while tb:
            where.append(tb.tb_frame.f_code.co_name)
            tb = tb.tb_next
        rep["res"] = ("exc", type(e).__name__, str(e)[:200], where[-3:])
        if again:
            try:
                rep["again"] = ("ok", float(go(None, None)))
            except BaseException as x:  # noqa: BLE001
                rep["again"] = ("exc", type(x).__name__, str(x)[:200])
    rep["changed"] = cfg.model_dump() != before
    return rep


def run(sc, ctx):
    root = ctx.scratch / "d"
    root.mkdir()
    inp, out = root / "in.h5", root / "out.h5"
    n, buf = sc["n"], sc["buf"]
    res = process(lambda: (knob(buf), make_input(sc, inp))[1])
    if res.status != "ok":
        raise RuntimeError(f"input: {res}")
    orig = inp.read_bytes()
    whole = n // buf * buf
    ctx.probe("source" if sc["src"] else "harvester")
    ctx.probe("ivcurve", int(sc["iv"]))
    ctx.probe("rest_dropped", int(n != whole))
    ctx.probe("empty_input", int(whole == 0))
    ctx.probe("descending_sweep", int(sc["iv"] and sc["down"]))
    ctx.probe("fast_rate", int(sc["step"] < 10_000))
    r = process(reference, sc, inp)
    if r.status != "ok":
        # refused configurations are refused by the simulation as well
        s = process(simulate, sc, inp, out, str(root))
        ctx.check(s.status == "ok" and s.value["res"][0] == "exc", "simulates-what-the-model-refuses", lambda: f"{r} vs {s}")
        frames = str(r.value)
        ctx.check("get_voltage_step" not in frames and not sc["iv"] or n <= 2, "recording-refused", lambda: f"reference: {r}")
        ctx.check(not s.value["open"], "file-stays-open", lambda: f"{s.value}")
        ctx.ev("refused", s.value["res"][1])
        return
    ref = r.value
    if sc["iv"] and n > sc["pts"] * sc["dwell"]:
        true = sc["vtop"] / (sc["pts"] - 1)
        with h5py.File(inp) as h:
            g = float(h["data/voltage"].attrs["gain"])
        ctx.check(ref["step"] is not None and abs(ref["step"] - true) <= 2 * g, "wrong-voltage-step", lambda: f"sweep steps by {true} V, reader reports {ref['step']} V")

    def verify_output(path, e, why, partial=None):
        """partial: None = complete, a number = this many samples, 'any' = any whole buffers."""
        with h5py.File(path) as h:
            t, v, i = h["data/time"][:], h["data/voltage"][:], h["data/current"][:]
            mode, dt = h.attrs["mode"], h["data"].attrs["datatype"]
        ctx.check(len(t) == len(v) == len(i), "output-lengths-differ", lambda: f"{why}: {len(t)} {len(v)} {len(i)}")
        k = whole if partial is None else partial
        if partial == "any":
            k = len(t)
            ctx.check(k <= whole and k % buf == 0, "output-not-whole-buffers", lambda: f"{why}: {k} of {whole} samples")
        ctx.check(len(t) == k, "output-length", lambda: f"{why}: {len(t)} samples instead of {k}")
        ctx.check(np.array_equal(t, ref["t"][:k]), "timestamps-differ", why)
        for nm, a, b in (("voltage", v, ref["v"]), ("current", i, ref["i"])):
            d = np.abs(a.astype("f8") - np.floor(b[:k])) if k else np.zeros(1)
            ctx.check(d.max() <= 1, "samples-differ", lambda: f"{why}: {nm} at {int(d.argmax())}: {int(a[d.argmax()])} instead of {b[d.argmax()]}")
        ctx.check(mode == ("emulator" if sc["src"] else "harvester") and dt == "ivsample", "output-labels", f"{why}: {mode} {dt}")
        if e is not None and k > 1:
            from shepherd_core import Reader

            knob(buf)
            with Reader(path, verbose=False) as rd:
                ctx.check(rd.is_valid(), "output-invalid", why)
                en = rd.energy()
            v_si, i_si = ref["v"] * ref["gv"] + ref["ov"], ref["i"] * ref["gi"] + ref["oi"]
            dts = (int(t[-1]) - int(t[0])) * 1e-9 / (len(t) - 1)
            tol = float((v_si * ref["gi"] + i_si * ref["gv"] + ref["gi"] * ref["gv"]).sum()) * dts * 1.5 + 1e-9 * abs(e)
            if not sc["gap"]:
                ctx.check(abs(en - e) <= tol, "energy-differs-from-output", lambda: f"{why}: returned {e}, recorded {en}, quantisation allows {tol}")

    def verify_ok(s, why, path=None, partial=None):
        ctx.check(s.status == "ok", "simulation-died", lambda: f"{why}: {s}")
        ctx.check(s.value["res"][0] == "ok", "simulation-fails", lambda: f"{why}: {s.value}")
        ctx.check(not s.value["open"], "file-stays-open", lambda: f"{why}: {s.value}")
        ctx.check(not s.value["changed"], "configuration-changed", why)
        e = s.value["res"][1]
        ctx.check(abs(e - ref["e"]) <= 1e-9 * abs(ref["e"]) + 1e-30, "energy", lambda: f"{why}: {e} instead of {ref['e']}")
        if path is not None:
            verify_output(path, e, why, partial)
        return e

    def old_output(p):
        if sc.get("old"):  # remains of something else at the path of the output
            p.write_bytes(orig if sc["old"] == "recording" else b"old text\n" * 300)
            ctx.probe("output_existed")

    old_output(out)
    base = process(simulate, sc, inp, out, str(root), root=root)
    e_out = verify_ok(base, "undisturbed", out)
    alone = process(simulate, sc, inp, None, str(root))
    ctx.check(verify_ok(alone, "without output") == e_out, "energy-depends-on-output", lambda: f"{alone.value['res'][1]} / {e_out}")
    ctx.probe("no_output")
    if sc["monitor"] and sc["src"]:
        old_output(root / "mon.h5")
        mon = process(lambda: simulate(sc, inp, root / "mon.h5", str(root), monitor=True))
        ctx.check(verify_ok(mon, "monitored", root / "mon.h5") == e_out, "energy-depends-on-monitoring", "")
        ctx.check((root / "mon.png").exists(), "no-plot", "")
        ctx.probe("monitored")
    ctx.check(inp.read_bytes() == orig, "input-changed", "undisturbed")
    ctx.simtime(whole * sc["step"] * 2)
    ctx.steps += whole
    for k, f in enumerate(sc["faults"]):
        kind = f["k"]
        why = f"fault {k} {f}"
        o = root / f"o{k}.h5"
        if kind == "target":
            if not sc["src"] or whole == 0:
                continue
            at = int(f["pos"] * whole)
            s = process(lambda: simulate(sc, inp, o, str(root), fail_at=at, exc=f["exc"], again=False))
            ctx.fault("target_raises")
            ctx.probe("target_raised")
            ctx.check(s.status == "ok" and s.value["res"][0] == "exc" and (s.value["res"][1] == f["exc"]), "error-swallowed", lambda: f"{why}: {s}")
            ctx.check(not s.value["open"], "file-stays-open", lambda: f"{why}: {s.value}")
            verify_output(o, None, why, at // buf * buf)
            s = process(lambda: simulate(sc, inp, o, str(root), fail_at=at, exc=f["exc"], again=True))
            ctx.check(s.status == "ok" and s.value.get("again", [""])[0] == "ok", "repetition-fails", lambda: f"{why}: {s.value}")
            ctx.check(s.value["again"][1] == e_out, "repetition-differs", lambda: f"{why}: {s.value}")
            verify_output(o, e_out, why + " repeated")
            out_cls = at // buf
        elif kind == "rot":
            if sc["lzf"] == "null" or n == 0:
                continue
            h5util.rot_payload(inp, "data/" + f["ds"], f["seed"], which=f["which"])
            bad = f["which"] % len(h5util.chunk_ranges(inp, "data/" + f["ds"]))
            with h5py.File(inp) as h:
                try:  # chunks that didn't compress are stored as they are
                    h["data"][f["ds"]][bad * buf : (bad + 1) * buf]
                    undecodable = False
                except OSError:
                    undecodable = True
            if not undecodable:
                inp.write_bytes(orig)
                continue
            bytes_now = inp.read_bytes()
            s = process(simulate, sc, inp, o, str(root))
            ctx.fault("input_chunk_undecodable")
            ctx.probe("input_damaged")
            ctx.check(s.status == "ok", "simulation-died", lambda: f"{why}: {s}")
            ctx.check(not s.value["open"], "file-stays-open", lambda: f"{why}: {s.value}")
            if s.value["res"][0] == "ok":  # only possible if the damaged part isn't needed
                ctx.check(bad * buf >= whole, "damage-ignored", lambda: f"{why}: {s.value}")
            elif o.exists() and o.stat().st_size:
                verify_output(o, None, why, "any" if bad == 0 or f["ds"] != "current" else min(bad * buf, whole))
            ctx.check(inp.read_bytes() == bytes_now, "input-changed", why)
            inp.write_bytes(orig)
            out_cls = bad
        elif kind in ("same", "symlink", "dir", "nodir", "unwritable"):
            if kind == "same":
                o = inp
            elif kind == "symlink":
                o.symlink_to("in.h5")
            elif kind == "dir":
                o.mkdir()
            elif kind == "nodir":
                o = root / "sub" / "deep" / "o.h5"
            else:
                (root / "file").write_text("x")
                o = root / "file" / "o.h5"
            s = process(lambda: simulate(sc, inp, o, str(root), monitor=sc["monitor"] and sc["src"]))
            ctx.fault("output_" + kind)
            ctx.probe("output_is_input", int(kind in ("same", "symlink")))
            if kind == "nodir":
                verify_ok(s, why, o)
            else:
                ctx.check(s.status == "ok" and s.value["res"][0] == "exc", "error-swallowed", lambda: f"{why}: {s}")
                ctx.check(not s.value["open"], "file-stays-open", lambda: f"{why}: {s.value}")
            ctx.check(inp.read_bytes() == orig, "input-changed", why)
            out_cls = 0
        else:
            dry = process(simulate, sc, inp, o, str(root), root=root)
            if o.exists():
                o.unlink()
            s = process(simulate, sc, inp, o, str(root), root=root, plan=[place(f, dry.ops)])
            ctx.absorb(s)
            ctx.probe("write_disturbed", int(bool(s.fired) and kind != "EIO-read"))
            ctx.probe("process_died", int(s.status == "died"))
            ctx.check(s.status in ("ok", "died"), "simulation-died", lambda: f"{why}: {s}")
            ctx.check(inp.read_bytes() == orig, "input-changed", why)
            if s.status == "ok":
                if s.value["res"][0] == "ok":
                    verify_ok(s, why, o)
                else:
                    ctx.check("in.h5" not in s.value["open"], "file-stays-open", lambda: f"{why}: {s.value}")
                    if kind == "EIO-read":
                        ctx.check(not s.value["open"], "file-stays-open", lambda: f"{why}: {s.value}")
                        if o.exists():
                            try:
                                h5py.File(o).close()
                                verify_output(o, None, why, "any")
                            except OSError:
                                pass
            # once the fault is over
            s2 = process(simulate, sc, inp, o, str(root))
            ctx.check(verify_ok(s2, why + " repeated", o) == e_out, "repetition-differs", why)
            out_cls = s.status
        ctx.state(sc["src"], sc["iv"], whole // buf, kind, out_cls)
        ctx.ev(kind, out_cls)
        for x in (o,):
            if x != inp and not x.is_dir() and x.exists():
                x.unlink()
    left = sorted(p.name for p in root.iterdir() if p.name.endswith(".h5") and p.name not in ("in.h5", "out.h5", "mon.h5") and p.is_file())
    ctx.ev(n, whole, round(e_out, 15), left)


def simplify(sc):
    import copy

    for k, v in (("n", sc["buf"] * 2), ("n", sc["buf"]), ("buf", 250), ("gap", False), ("conf", False), ("dwell", 1), ("cal", "default"), ("step", 10_000), ("start", 0), ("iv", False), ("monitor", False), ("tgt", "r"), ("down", False), ("src", False), ("lzf", "gzip1")):
        if sc[k] != v:
            yield {**copy.deepcopy(sc), k: v}
    yield {**copy.deepcopy(sc), "c": {"cfg": {"name": "BQ25504"}, "algo": "cv20"}}
