"""C01: recording history refinement against a list of accepted samples."""

from __future__ import annotations

import h5py
import numpy as np
import yaml

from ..sim import Disk

RUNS = {"quick": 2500, "thorough": 40000}
RULE = (
    "seeded histories of recording sessions (new / modify / overwrite opens, raw and SI appends with scalar or array "
    "timestamps and unequal lengths, refused appends, config/hostname/attribute stores, metadata and energy queries, normal and "
    "exceptional ends, reads in any buffer size) on real HDF5 files, replayed against a list of accepted samples; "
    "short reads/writes and EINTR injected below HDF5."
)
REAL = ["shepherd_core.Writer", "shepherd_core.Reader", "h5py / HDF5 on a real file system"]
STUB = ["disk completion (short / interrupted system calls) through libsim"]
SHRINK = ["ops", "faults"]
STATE_MEASURE = "hash of (sessions, stored length mod 10000 class, spacing class, mode, datatype, open kind, last op)"
BUF = 10_000


def warm() -> None:
    import shepherd_core  # noqa: F401
    from shepherd_core import Reader, Writer  # noqa: F401


def gen_open(rng, kind):
    o = {"kind": kind, "file": rng.randrange(3)}
    if rng.random() < (0.9 if kind != "modify" else 0.25):
        o["mode"] = rng.choice(["harvester", "harvester", "emulator"])
        o["dtype"] = "ivsample" if o["mode"] == "emulator" else rng.choice(["ivsample", "ivcurve", "isc_voc"])
        if o["dtype"] == "ivcurve":
            o["win"] = rng.choice([1, 100, 500, 909])
        elif rng.random() < 0.5:
            o["win"] = 0
    elif kind == "modify" and rng.random() < 0.2:
        o["win"] = rng.choice([0, 0, 37])
    if rng.random() < 0.4:
        o["cal"] = rng.choice(["hrv", "emu", ["ser", rng.uniform(1e-9, 9e-9), rng.uniform(-1e-3, 1e-3), rng.uniform(1e-10, 1e-9), rng.uniform(-1e-6, 1e-6), rng.choice([0, 0, 0, 0.5, -3.25, 100.0])]])
    o["comp"] = rng.choice(["default", "lzf", "gzip1", "null", None])
    return o


def gen_len(rng):
    return rng.choice([0, 1, 2, 3, rng.randrange(4, 200), rng.randrange(200, 9_999), 9_999, 10_000, 10_000, 10_001, rng.randrange(10_002, 25_000)])


def gen_append(rng, style):
    n = gen_len(rng)
    d = {"n": n, "seed": rng.randrange(1 << 30), "form": style["form"] if rng.random() < 0.85 else rng.choice(["scalar", "float", "array"]), "step": style["step"]}
    if d["form"] != "array":
        d["step"] = 10_000
    r = rng.random()
    d["vl"] = d["cl"] = d["tl"] = 0
    if r < 0.25:
        d[rng.choice(["vl", "cl", "tl"])] = rng.choice([1, 2, 7, 500])
    d["gap"] = 0 if rng.random() < style["contig"] else rng.choice([1, 10_000, 123_456_789, 10**9])
    d["neg"] = rng.random() < 0.2
    if d["form"] == "array" and rng.random() < 0.06:
        d["back"] = rng.randrange(1 << 30)  # stamps run backwards somewhere (a clock was set)
    return ["si" if rng.random() < 0.35 else "raw", d]


def gen(rng, tier, i):
    ops = []
    style = {"form": rng.choice(["scalar", "array", "array", "float"]), "step": rng.choice([10_000, 10_000, 10_000, 1_000_000, 2_000_000, 1_000]), "contig": rng.choice([1, 1, 1, 0.6])}
    for s in range(rng.randrange(1, 5)):
        kind = "new" if s == 0 else rng.choice(["modify", "modify", "modify", "modify", "new", "overwrite"])
        ops.append(["open", gen_open(rng, kind)])
        for _ in range(rng.randrange(0, 6)):
            r = rng.random()
            if r < 0.62:
                ops.append(gen_append(rng, style))
            elif r < 0.70:
                ops.append(["bad", rng.choice(["none", "str", "list"]), rng.randrange(1, 50)])
            elif r < 0.77:
                if rng.random() < 0.5:
                    ops.append(["getters"])
                ops.append(["config", {"virtual_harvester": {"voltage_step_mV": rng.randrange(1, 99)}, "k": [rng.randrange(9), "x"], "f": rng.random(), **rng.choice([{}, {}, {"none": None, "text": "a: null # b"}, {"zz": True, "aa": {"b": [], "a": {}}, "n": -1, "ü": "ä\n b"}, {"s": "", "t": "1e3", "u": "yes", "long": "word " * 40}])}])
                if rng.random() < 0.5:
                    ops.append(["getters"])
            elif r < 0.83:
                ops.append(["host", rng.choice(["sheep0", "höst", "a b", "unit_testing", "sheep1.lan", "007", "x" * 60])])
            elif r < 0.89:
                ops.append(["attr", rng.choice(["a1", "note", "user"]), rng.choice([1, 2.5, "txt", "", True, [1, 2, 3], [0.5, 1.5], ["a", "b"], "2024-01-01", "a: b"])])
            elif r < 0.91:
                ops.append(["getters"])
            elif r < 0.95:
                ops.append(["stat", rng.choice(["meta", "energy", "valid", "minimal"])])
            else:
                ops.append(["live", rng.randrange(1, 12_000), rng.randrange(3)])
        ops.append([rng.choice(["close", "close", "exc"])])
        if rng.random() < 0.8:
            ops.append(["read", {"file": rng.randrange(3), "size": rng.choice([None, 1_000, 10_000, 7_777, rng.randrange(500, 12_000)]), "start": rng.choice([0, 0, 1, 2, 5]), "end": rng.choice([None, None, 0, 1, 3, 100]), "raw": rng.random() < 0.6, "omit": rng.random() < 0.3}])
    faults = []
    if rng.random() < 0.35:
        for _ in range(rng.randrange(1, 4)):
            k = rng.choice(["short", "EINTR"])
            if k == "short":
                faults.append({"kind": "short", "ops": ["write", "read"], "nth": rng.randrange(60), "count": rng.choice([1, 3, 20]), "arg": rng.randrange(1, 999)})
            else:
                faults.append({"kind": "errno", "ops": [rng.choice(["write", "read"])], "nth": rng.randrange(40), "count": rng.choice([1, 2]), "arg": "EINTR"})
    return {"start": rng.choice([0, 1, 10**9, 1_700_000_000 * 10**9, 123_456_789_012_345]), "ops": ops, "faults": faults}


class M:
    """One file in the model."""

    def __init__(self) -> None:
        self.t = np.zeros(0, "u8")
        self.v = np.zeros(0, "u4")
        self.c = np.zeros(0, "u4")
        self.mode, self.dtype, self.win = "harvester", "ivsample", 0
        self.cal = None
        self.attrs: dict = {}
        self.host = "unknown"
        self.config: dict = {}
        self.exact = True  # timestamps are known exactly
        self.appended_sessions = 0

    def spacing(self):
        """None: no statement; else the constant distance."""
        if self.t.size < 2:
            return 10_000
        d = np.diff(self.t.astype("i8"))
        if d.min() == d.max() and d[0] > 0:
            return int(d[0])
        return None


def make_cal(spec):
    from shepherd_core.data_models.base.calibration import CalibrationEmulator, CalibrationHarvester, CalibrationPair, CalibrationSeries

    if spec is None:
        return None, CalibrationSeries()
    if spec == "hrv":
        c = CalibrationHarvester()
        return c, CalibrationSeries(voltage=c.adc_V_Sense, current=c.adc_C_Hrv)
    if spec == "emu":
        c = CalibrationEmulator()
        return c, CalibrationSeries(voltage=c.dac_V_A, current=c.adc_C_A)
    c = CalibrationSeries(voltage=CalibrationPair(gain=spec[1], offset=spec[2]), current=CalibrationPair(gain=spec[3], offset=spec[4]), **({"time": CalibrationPair(gain=1e-9, offset=spec[5])} if spec[5] else {}))
    return c, c


class Boom(Exception):
    pass


def run(sc, ctx):
    from shepherd_core import Reader, Writer
    from shepherd_core.data_models.content.energy_environment import EnergyDType
    from shepherd_core.data_models.task.emulation import Compression

    files: dict = {}  # name -> M
    order: list = []
    w = m = None
    name = None
    t_next = sc["start"]
    session_fresh_rate = None
    n_sess = 0

    def verify(nm, why):
        mm = files[nm]
        p = ctx.scratch / nm
        with h5py.File(p, "r") as h:
            lens = [h["data"][k].shape[0] for k in ("time", "voltage", "current")]
            ctx.check(len(set(lens)) == 1, "unequal-datasets", f"{why} {nm}: {lens}")
            ctx.check(lens[0] == mm.t.size, "wrong-length", f"{why} {nm}: {lens[0]} samples stored, {mm.t.size} expected")
            for k, exp in (("time", mm.t), ("voltage", mm.v), ("current", mm.c)):
                got = h["data"][k][:]
                if not np.array_equal(got, exp):
                    bad = np.nonzero(got != exp)[0]
                    ctx.check(False, f"wrong-{k}", f"{why} {nm}: {bad.size} of {exp.size} differ, first at {bad[0]}: {got[bad[0]]} != {exp[bad[0]]}")
        with Reader(p, verbose=False) as r:
            getters(r, mm, why)
            for k, v in mm.attrs.items():
                got = r[k].tolist() if isinstance(r[k], np.ndarray) else r[k]
                ctx.check(got == v, "attribute", f"{k}: {r[k]} != {v}")
                ctx.probe("attribute_list", int(isinstance(v, list)))
            if mm.attrs:
                meta = r.get_metadata(minimal=True)
                for k, v in mm.attrs.items():
                    want = v if not isinstance(v, str) else yaml.safe_load(v)
                    ctx.check(meta[k] == want, "attribute-in-metadata", f"{k}: {meta[k]!r} != {want!r}")
                ctx.check(yaml.safe_load(yaml.safe_dump(meta)) == meta, "metadata-not-storable", str(meta))
            cal = r.get_calibration_data()
            for ds in ("time", "voltage", "current"):
                for q in ("gain", "offset"):
                    ctx.check(getattr(getattr(cal, ds), q) == getattr(getattr(mm.cal, ds), q), "calibration", f"{ds}.{q}")
            ctx.check(r.is_valid() is True, "invalid-after-recording", nm)
        ctx.ev("verify", nm, mm.t.size, int(mm.v.sum()), int(mm.t[-1]) if mm.t.size else "-")

    def getters(r, mm, why):
        ctx.check(r.get_mode() == mm.mode, "mode", f"{why}: {r.get_mode()} != {mm.mode}")
        ctx.check(r.get_datatype() == EnergyDType[mm.dtype], "datatype", f"{why}: {r.get_datatype()} != {mm.dtype}")
        ctx.check(r.get_window_samples() == mm.win, "window", f"{why}: {r.get_window_samples()} != {mm.win}")
        ctx.check(r.get_hostname() == mm.host, "hostname", f"{why}: {r.get_hostname()} != {mm.host}")
        ctx.check(r.get_config() == mm.config, "config", f"{why}: get_config() = {r.get_config()} after store_config({mm.config})")

    def finish(exc):
        nonlocal w, m, name
        try:
            if exc:
                try:
                    with w:
                        raise Boom
                except Boom:
                    pass
                ctx.fault("session_ended_by_exception")
            else:
                w.__exit__(None, None, None)
        finally:
            w.h5file.close()
            w = None
        sp = m.spacing()
        full, floor = m.t.size, m.t.size // BUF * BUF
        if m.exact and sp == 10_000:
            keep = floor
            if floor != full:
                ctx.probe("truncated_to_buffers")
        elif m.exact and sp is not None and (sp >= 20_000 or sp <= 5_000):
            keep = full
            ctx.probe("other_rate_kept")
        else:  # gaps or quantised stamps: rate is ambiguous, both lengths are legal
            with h5py.File(ctx.scratch / name, "r") as h:
                keep = h["data/time"].shape[0]
            ctx.check(keep in (full, floor), "wrong-length", f"{keep} stored, expected {full} or {floor}")
        if keep != full:
            m.t, m.v, m.c = m.t[:keep], m.v[:keep], m.c[:keep]
        verify(name, "after session")
        ctx.state(n_sess, min(m.t.size, 3), m.t.size % BUF == 0, sp, m.mode, m.dtype, exc)
        m = name = None

    with Disk(ctx.scratch, sc["faults"]) as disk:
        for op in sc["ops"]:
            k = op[0]
            ctx.steps += 1
            if k == "open":
                o = op[1]
                if w is not None:
                    finish(False)
                kind = o["kind"]
                tgt = order[o["file"] % len(order)] if order else "rec.h5"
                if kind == "new":
                    tgt = "rec.h5"
                if kind == "modify" and tgt not in files:
                    continue
                cal_in, cal_exp = make_cal(o.get("cal"))
                comp = Compression[o["comp"]] if o.get("comp") else None
                kw = {"mode": o.get("mode"), "datatype": o.get("dtype"), "window_samples": o.get("win"), "cal_data": cal_in, "compression": comp, "verbose": False}
                base = files[tgt] if kind == "modify" else M()
                mode = o.get("mode") or base.mode
                dt = o.get("dtype") or base.dtype
                win = o["win"] if o.get("win") is not None else base.win
                if (mode == "emulator" and dt != "ivsample") or (dt == "ivcurve" and win < 1):
                    continue
                before = set(files)
                w = Writer(ctx.scratch / tgt, modify_existing=kind == "modify", force_overwrite=kind == "overwrite", **kw)
                name = w.file_path.name
                n_sess += 1
                if kind == "new":
                    ctx.check(name not in before, "foreign-file", f"opened {name} though it exists")
                else:
                    ctx.check(name == tgt, "foreign-file", f"{name} != {tgt}")
                m = base
                if kind != "modify":
                    files[name] = m
                    if name not in order:
                        order.append(name)
                m.mode, m.dtype, m.win = mode, dt, win
                if cal_in is not None or m.cal is None:
                    m.cal = cal_exp
                sp = m.spacing()
                session_fresh_rate = sp if (m.t.size >= 2 and m.exact) else 10_000
                if m.t.size and m.appended_sessions:
                    ctx.probe("reopened_with_data")
                ctx.ev("open", kind, name, mode, dt, win)
            elif k in ("raw", "si"):
                if w is None:
                    continue
                d = op[1]
                n = d["n"]
                rs = np.random.RandomState(d["seed"])
                v = rs.randint(0, 2**32, size=n + d["vl"], dtype="u8").astype("u4")
                c = rs.randint(0, 2**32, size=n + d["cl"], dtype="u8").astype("u4")
                t0 = t_next + d["gap"]
                if d["gap"]:
                    ctx.probe("gap")
                step = d["step"]
                scalar = d["form"] != "array"
                keep = min(v.size, c.size)
                if scalar:
                    sp = m.spacing()
                    if sp is None or not m.exact:
                        step = None  # no statement about the spacing
                    elif m.t.size >= 2 and sp != 10_000:
                        step = session_fresh_rate if session_fresh_rate == sp else None
                    else:
                        step = 10_000
                else:
                    t = t0 + step * np.arange(n + d["tl"], dtype="u8")
                    if d.get("back") is not None and n > 3:
                        q = 1 + d["back"] % (n - 1)
                        t = np.concatenate((t[q:], t[:q]))
                        ctx.probe("stamps_run_backwards")
                    keep = min(keep, t.size)
                if not (v.size == c.size) or d["tl"]:
                    ctx.probe("unequal_lengths")
                len0 = w.ds_time.shape[0]
                if k == "raw":
                    ts = int(t0) if d["form"] == "scalar" else float(t0) if d["form"] == "float" else t
                    w.append_iv_data_raw(ts, v, c)
                    t_first = int(float(t0)) if d["form"] == "float" else int(t0)
                else:
                    vs = v * m.cal.voltage.gain + m.cal.voltage.offset
                    cs = c * m.cal.current.gain + m.cal.current.offset
                    if d["neg"] and vs.size:
                        vs[0] = -1.0
                        v = v.copy()
                        v[0] = 0
                        ctx.probe("negative_si_clamped")
                    off = m.cal.time.offset
                    ts = float(t0) * 1e-9 + off if scalar else t.astype(float) * 1e-9 + off
                    w.append_iv_data_si(ts, vs.copy(), cs.copy())
                    t_first = None
                got_n = w.ds_time.shape[0] - len0
                ctx.check(got_n == keep, "append-length", f"{got_n} samples appended instead of {keep}")
                tail = w.ds_time[len0:]
                if t_first is None and keep:  # SI stamps carry float precision (~256 ns at epoch times)
                    tol = max(2, int(t0 * 4.5e-16) + 2)
                    tf = t0 if scalar else int(t[0])
                    ctx.check(abs(int(tail[0]) - tf) <= tol, "si-timestamp", f"{tail[0]} stored for {tf}")
                    t_first = int(tail[0])
                    if not scalar:
                        ctx.check(np.all(np.abs(tail.astype("i8") - t[:keep].astype("i8")) <= tol), "si-timestamp", "array stamps off")
                        if not np.array_equal(tail, t[:keep]):
                            m.exact = False
                if scalar and step is not None and keep:
                    exp_t = t_first + step * np.arange(keep, dtype="u8")
                    if not np.array_equal(tail, exp_t):
                        gd = np.unique(np.diff(tail.astype("i8")))[:4]
                        ctx.check(False, "scalar-spacing", f"batch of {keep} at one start stamp: spacing {gd}, first {tail[0]}, expected start {t_first} spacing {step} ns")
                if scalar and step is None:
                    ctx.probe("spacing_not_specified")
                    if keep > 1 and m.t.size:
                        m.exact = m.exact and False
                new_t = tail if (scalar or k == "si") else t[:keep]
                m.t = np.concatenate((m.t, np.asarray(new_t[:keep], "u8")))
                m.v = np.concatenate((m.v, v[:keep]))
                m.c = np.concatenate((m.c, c[:keep]))
                if keep:
                    t_next = int(m.t[-1]) + (step or 10_000)
                    m.appended_sessions += 1
                ctx.ev(k, d["form"], keep, t_first)
            elif k == "bad":
                if w is None:
                    continue
                n0 = w.ds_time.shape[0]
                one = np.ones(op[2], "u4")
                try:
                    w.append_iv_data_raw({"none": None, "str": "now", "list": 5}[op[1]], one.tolist() if op[1] == "list" else one, one)
                    ctx.check(False, "bad-batch-accepted", op[1])
                except (TypeError, AttributeError, ValueError):
                    ctx.fault("refused_batch")
                ctx.check(w.ds_time.shape[0] == w.ds_voltage.shape[0] == w.ds_current.shape[0] == n0, "refused-batch-changed-file", op[1])
            elif k == "config" and w is not None:
                w.store_config(op[1])
                m.config = op[1]
            elif k == "host" and w is not None:
                w.store_hostname(op[1])
                m.host = op[1]
            elif k == "attr" and w is not None:
                w[op[1]] = op[2]
                m.attrs[op[1]] = op[2]
            elif k == "stat" and w is not None:
                {"meta": w.get_metadata, "energy": w.energy, "valid": w.is_valid, "minimal": lambda: w.get_metadata(minimal=True)}[op[1]]()
                if op[1] in ("meta", "minimal"):
                    sp = m.spacing()
                    session_fresh_rate = sp if (m.t.size >= 2 and m.exact) else session_fresh_rate
                    ctx.probe("stats_mid_session")
            elif k == "getters" and w is not None:
                getters(w, m, "in the session")
                ctx.probe("getters_mid_session")
            elif k == "live" and w is not None:
                read_back(ctx, w, m, op[1], op[2], None, True, False)
            elif k in ("close", "exc"):
                if w is not None:
                    finish(k == "exc")
            elif k == "read":
                if w is not None:
                    finish(False)
                if not order:
                    continue
                o = op[1]
                nm = order[o["file"] % len(order)]
                with Reader(ctx.scratch / nm, verbose=False) as r:
                    read_back(ctx, r, files[nm], o["size"], o["start"], o["end"], o["raw"], o["omit"])
        if w is not None:
            finish(False)
        for nm in order:
            verify(nm, "at the end")
        for kk, n in disk.fired():
            ctx.fault({"short": "short_read_or_write"}.get(kk, kk), n)


def read_back(ctx, r, m, size, start, end, raw, omit):
    n = size or BUF
    if m.t.size // n > 400:
        n = max(n, m.t.size // 50 + 1)
    got = list(r.read_buffers(start, end, n if size else None, is_raw=raw, omit_ts=omit))
    last = m.t.size // n
    if end is not None:
        last = min(end, last)
    exp = list(range(start, last))
    ctx.check(len(got) == len(exp), "buffer-count", f"{len(got)} buffers of {n} from {m.t.size} samples [{start}:{end}], expected {len(exp)}")
    for i, (t, v, c) in zip(exp, got):
        s = slice(i * n, (i + 1) * n)
        et, ev, ec = m.t[s], m.v[s], m.c[s]
        if not raw:
            et = et * m.cal.time.gain + m.cal.time.offset
            ev = ev * m.cal.voltage.gain + m.cal.voltage.offset
            ec = ec * m.cal.current.gain + m.cal.current.offset
        ctx.check((t is None) == omit, "buffer-time", "timestamps")
        for a, b, q in ((t, et, "time"), (v, ev, "voltage"), (c, ec, "current")):
            if a is None:
                continue
            ok = np.array_equal(a, b) if raw else (a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-15))
            ctx.check(ok, f"buffer-{q}", f"buffer {i} of size {n} differs")
    ctx.probe("buffers_read", len(got))
    ctx.ev("read", n, start, end, len(got))
