"""C05: model files stored and loaded under crashes, disk faults and concurrent readers, seeded model values."""

from __future__ import annotations

import os
import time
from datetime import datetime, timedelta, timezone
from pathlib import Path
from uuid import UUID

import yaml

from ..sched import Sched, patch_locks
from ..sim import LEGAL_FAULTS, WRITE_FAULTS, Node, clock, gen_fault, interleave, place, process

RUNS = {"quick": 1300, "thorough": 40000}
RULE = (
    "seeded histories over a few paths: store a generated model (17 model types, seeded values: sub-second durations, aware / naive "
    "timestamps, YAML-special text, paths, enums, embedded firmware, nested tasks; minimal or full) with process death, torn write, "
    "ENOSPC, EIO, disk quota, short write or EINTR at any system call; load in a fresh process; load as another type; store while "
    "other processes load, interleaved at every system call; local timezone and clock simulated."
)
REAL = ["ShpModel.to_file / from_file / schema_to_file, all models", "prepare_task / extract_tasks", "PyYAML, pydantic", "real processes on a real file system"]
STUB = ["disk completion and process death through libsim", "process scheduling (token per system call)", "clock, TZ"]
SHRINK = ["ops"]
STATE_MEASURE = "hash of (operation, model type, fault kind, outcome, content class found afterwards)"
MUST_HIT = ["threads_preempted", "store_disturbed", "loaded_old_after_fault", "loaded_new", "race_saw_old", "race_saw_new", "fractional_duration"]

NOW = 1_720_000_000_000_000_000
TEXTS = ["abc", "yes", "no", "null", "~", "1e3", "0x10", "1_000", "12:30:45", "2024-01-01", "- a", "a: b", "#x", "'q'", "a # b", "0.10", "off", "%tag", "@x", "`x", "&a", "*a", "!x", "1.", "{}", "[]", "x" * 200, "a  b", "true", "2024-01-01 10:00:00"]
NAMES = ["abc", "007", "yes", "1e3", "null", "nörd", "数据", "0x1F", "1.50", "a b", "2024-01-01", "- a", "é" * 20, "~", "#1", "12_000", "=", "true"]
TZS = ["UTC", "Europe/Berlin", "America/St_Johns", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Kiritimati", "America/New_York", "XXX-12:30"]
KINDS = ["cape", "vsrc", "vhrv", "eenv", "fw", "emu", "hrv", "prog", "fwmod", "power", "gpio", "sys", "wrapcal", "xp", "tbt", "obt", "target", "testbed", "gpioev"]


def warm() -> None:
    patch_locks()
    import shepherd_core.data_models  # noqa: F401
    from shepherd_core.data_models.task import TestbedTasks  # noqa: F401


def gval(rng):
    return {
        "txt": rng.choice(TEXTS), "txt2": rng.choice(TEXTS), "nm": rng.choice(NAMES), "nm2": rng.choice(NAMES),
        "us": rng.choice([0, 500_000, 1, 999_999, rng.randrange(1_000_000)]), "s": rng.choice([0, 1, 59, 60, 3600, 86_400 * 40, rng.randrange(10_000)]),
        "us2": rng.randrange(1_000_000), "off": rng.choice([0, 3600, -12600, 20700, 43200]), "dus": rng.choice([0, 0, 1, 999_999, rng.randrange(1_000_000)]),
        "f": rng.choice([1.0, 0.1, 1e-9, 1.5e-6, 123456.789, 1e17, 2.0 ** 0.5, 3.0000000000000004]), "g": rng.random(), "i": rng.randrange(1 << 31),
        "b": rng.randrange(1 << 16), "path": rng.choice(["/a/b/c.h5", "rel/x.h5", "/ä/ö 1/x.h5", "1e3.h5", "~/x.h5", "/tmp/- a: b.h5", "no.h5", "./../x.h5"]),
    }


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randrange(2, 8)):
        r = rng.random()
        m = {"kind": rng.choice(KINDS), "v": gval(rng), "mini": rng.random() < 0.6, "com": rng.choice([None, None, "some text", "a: b # c", "yes"])}
        p = rng.randrange(2)
        if r < 0.62:
            f = None if rng.random() < 0.4 else gen_fault(rng, WRITE_FAULTS if rng.random() < 0.85 else LEGAL_FAULTS)
            ops.append(["store", {"p": p, "m": m, "fault": f}])
        elif r < 0.80:
            ops.append(["race", {"p": p, "m": m, "n": rng.choice([1, 2]), "sched": [rng.randrange(3) for _ in range(rng.randrange(0, 30))], "kill": rng.choice([None, None, rng.randrange(1, 25)])}])
        elif r < 0.84:
            ms = [m, {**m, "v": gval(rng)}, {**m, "v": gval(rng), "mini": not m["mini"]}][: rng.choice([2, 2, 3])]
            ops.append(["threads", {"p": p, "ms": ms, "n": rng.choice([0, 1, 1]), "pre": [[rng.choice([0, 1, 2, 3, 5, 8, 13, rng.randrange(120)]), rng.randrange(4)] for _ in range(rng.randrange(1, 25))]}])
        elif r < 0.91:
            ops.append(["schema", {"p": p, "kind": m["kind"], "fault": gen_fault(rng, WRITE_FAULTS) if rng.random() < 0.7 else None}])
        elif r < 0.95:
            ops.append(["wrong", {"p": p, "kind": m["kind"]}])
        else:
            ops.append(["task", {"p": p}])
    return {"tz": rng.choice(TZS), "dot": rng.random() < 0.3, "deep": rng.random() < 0.2, "ops": ops}


def build(m):
    import base64

    import zstandard

    from shepherd_core.data_models import base as _b  # noqa: F401
    from shepherd_core.data_models.base.cal_measurement import CalMeasurementCape  # noqa: F401
    from shepherd_core.data_models.base.calibration import CalibrationCape, CalibrationPair, CalibrationSeries, CapeData
    from shepherd_core.data_models.content import EnergyEnvironment, Firmware, VirtualHarvesterConfig, VirtualSourceConfig
    from shepherd_core.data_models.experiment import Experiment, GpioTracing, PowerTracing, SystemLogging, TargetConfig
    from shepherd_core.data_models.experiment.observer_features import GpioEvent
    from shepherd_core.data_models.task import EmulationTask, FirmwareModTask, HarvestTask, ProgrammingTask, TestbedTasks
    from shepherd_core.data_models.testbed import GPIO, Target, Testbed

    v, k = m["v"], m["kind"]
    dur = timedelta(seconds=v["s"], microseconds=v["us"])
    dur2 = timedelta(seconds=v["s"] // 7, microseconds=v["us2"])
    when = datetime.fromtimestamp(NOW // 10**9 + 86_400 * 30 + v["i"] % 10**7, tz=timezone(timedelta(seconds=v["off"]))).replace(microsecond=v["dus"])
    blob = base64.b64encode(zstandard.ZstdCompressor(level=20).compress(bytes((v["b"] * (j + 1)) % 256 for j in range(60)))).decode()
    naive = (datetime(2020, 1, 1) + timedelta(seconds=v["i"] % 10**8)).replace(microsecond=v["dus"])
    own = {"owner": v["nm2"], "group": v["nm"]}

    def emu(**kw):
        return EmulationTask(input_path=Path(v["path"]), output_path=Path("/o/" + v["path"]), time_start=when, duration=dur, voltage_aux=[0.5 + v["g"], "main", "buffer", 0][v["b"] % 4],
                             output_compression=[None, "lzf", "1", "None"][v["b"] % 4], io_port=["A", "B"][v["b"] % 2],
                             virtual_source=VirtualSourceConfig(name=["BQ25504", "neutral", "diode+capacitor"][v["b"] % 3], C_intermediate_uF=1 + v["g"] * 10),
                             power_tracing=PowerTracing(delay=dur2, duration=dur, samplerate=10 + v["i"] % 90_000), gpio_tracing=None if v["b"] % 5 == 0 else GpioTracing(delay=dur2, uart_baudrate=9600, mask=1 + v["b"] % 1023), **kw)

    def xp():
        tgt = TargetConfig(target_IDs=[6, 9] if v["b"] % 2 else [6], custom_IDs=None if v["b"] % 3 else [v["b"] % 9999 + 1, v["i"] % 9999 + 10_001], energy_env=EnergyEnvironment(name="SolarSunny"),
                           virtual_source=VirtualSourceConfig(name="neutral", C_output_uF=v["g"]), firmware1=Firmware(name="nrf52_demo_rf") if v["b"] % 2 else Firmware(name="nrf52_deep_sleep"), power_tracing=PowerTracing(delay=dur2))
        return Experiment(name=v["nm"].replace("/", "_"), comment=v["txt"], time_start=when, duration=dur, target_configs=[tgt], owner_id=v["i"], sys_logging=SystemLogging(ptp=bool(v["b"] & 1)), email_results=bool(v["b"] & 2))

    if k == "cape":
        return CalibrationCape(cape=CapeData(serial_number=v["txt"][:12], version="24B0" if v["b"] % 2 else v["txt2"][:3] + "x", cal_date="2024-01-%02d" % (1 + v["b"] % 28)))
    if k == "wrapcal":
        return CalibrationSeries(voltage=CalibrationPair(gain=abs(v["f"]), offset=-v["g"]), current=CalibrationPair(gain=1e-9 + v["g"], offset=v["f"] * 1e-3), time=CalibrationPair(gain=1e-9))
    if k == "vsrc" and v["b"] % 3 == 0:  # back to what the class would use without the database
        fs = [f for f, i in VirtualSourceConfig.model_fields.items() if f.startswith(("C_", "V_", "R_", "I_", "interval_", "enable_")) and isinstance(i.default, (int, float))]
        nm = ["BQ25504", "BQ25504s", "BQ25570", "diode+capacitor", "neutral", "diode+resistor+capacitor", "direct"][v["i"] % 7]
        for j in range(len(fs)):  # not every combination is permitted
            try:
                return VirtualSourceConfig(name=nm, **{fs[(v["i"] // 7 + j * step) % len(fs)]: VirtualSourceConfig.model_fields[fs[(v["i"] // 7 + j * step) % len(fs)]].default for step in (1, 2)})
            except ValueError:
                continue
    if k == "vhrv" and v["b"] % 4 == 1:
        fs = [f for f in ("samples_n", "voltage_max_mV", "current_limit_uA", "wait_cycles", "voltage_mV", "voltage_min_mV", "setpoint_n", "interval_ms", "duration_ms", "rising", "enable_linear_extrapolation")]
        f = fs[v["i"] % len(fs)]
        try:
            return VirtualHarvesterConfig(name=["mppt_voc", "mppt_po", "mppt_bq_solar"][v["s"] % 3], **{f: VirtualHarvesterConfig.model_fields[f].default}, **own)
        except ValueError:
            pass
    if k == "vsrc":
        return VirtualSourceConfig(name="BQ25504", C_intermediate_uF=1 + v["g"] * 100, V_intermediate_init_mV=2000 + v["i"] % 999, interval_startup_delay_drain_ms=v["g"] * 3, LUT_output_efficiency=[0.01 + (v["g"] + j / 12) % 0.99 for j in range(12)])
    if k == "vhrv":
        return VirtualHarvesterConfig(name=["mppt_voc", "mppt_po", "cv20"][v["b"] % 3], voltage_step_mV=1 + v["i"] % 900 + v["g"], **own)
    if k == "eenv":
        return EnergyEnvironment(id=UUID(int=v["i"] << 90 | 4 << 76 | 8 << 60, version=4) if v["b"] % 2 else v["i"], name=v["nm"], data_path=Path(v["path"]), data_type="ivsample", duration=v["g"] * 1000, energy_Ws=v["f"], valid=True,
                                 location=v["txt"] or "x", created=naive, updated_last=when, comment=v["txt2"], **own)
    if k == "fw":
        return Firmware(name=v["nm"], data=blob, data_type="hex" if v["b"] % 2 else "elf", mcu={"name": "nrf52"}, description=v["txt"], created=when, updated_last=naive, visible2all=bool(v["b"] & 1), **own)
    if k == "emu":
        return emu()
    if k == "hrv":
        return HarvestTask(output_path=Path(v["path"]), time_start=when, duration=dur, virtual_harvester={"name": "mppt_voc"}, power_tracing=PowerTracing(duration=dur2))
    if k == "prog":
        return ProgrammingTask(firmware_file=Path(v["path"]).with_suffix(".hex"), mcu_type=v["txt"], voltage=1 + v["g"] * 3.5, protocol=["SWD", "SBW"][v["b"] % 2], target_port=["A", "B"][v["b"] % 2])
    if k == "fwmod":
        return FirmwareModTask(data=blob, data_type="elf", custom_id=v["b"] % 4096, firmware_file=Path(v["path"]).with_suffix(".hex"))
    if k == "power":
        return PowerTracing(delay=dur, duration=dur2, samplerate=10 + v["i"] % 90_000, discard_current=bool(v["b"] & 1))
    if k == "gpio":
        return GpioTracing(delay=dur2, duration=dur, mask=1 + v["b"] % 1023, uart_decode=bool(v["b"] & 1), gpios=[GPIO(name="GPIO1"), GPIO(name="GPIO3")] if v["b"] & 2 else None)
    if k == "gpioev":
        return GpioEvent(delay=v["g"] + 0.1, gpio=GPIO(name="GPIO0"), level=["L", "H", "X"][v["b"] % 3], period=1e-5 + v["g"], count=1 + v["i"] % 4000)
    if k == "sys":
        return SystemLogging(dmesg=bool(v["b"] & 1), ptp=bool(v["b"] & 2), shepherd=bool(v["b"] & 4))
    if k == "xp":
        return xp()
    if k == "tbt":
        return TestbedTasks.from_xp(xp())
    if k == "obt":
        return TestbedTasks.from_xp(xp()).observer_tasks[0]
    if k == "target":
        return Target(id=6 if v["b"] % 2 else 9)
    if k == "testbed":
        return Testbed(name="shepherd_tud_nes", prep_duration=dur)
    raise ValueError(k)


AUTO = {"id", "created", "updated_last"}


def canon(m, set_only, top=True):
    """Comparable content; automatic defaults (fresh id / dates) that a minimal file does not hold by design are left out."""
    from pydantic import BaseModel

    if isinstance(m, BaseModel):
        return {n: canon(getattr(m, n), set_only, False) for n in type(m).model_fields if not (set_only and n in AUTO and n not in m.model_fields_set)}
    if isinstance(m, dict):
        return {str(k): canon(x, set_only, False) for k, x in m.items()}
    if isinstance(m, (list, tuple)):
        return [canon(x, set_only, False) for x in m]
    if isinstance(m, datetime):
        return ("dt", m.timestamp() if m.tzinfo else "naive", m.isoformat() if not m.tzinfo else "")
    if isinstance(m, timedelta):
        return ("td", m // timedelta(microseconds=1))
    if isinstance(m, (Path, UUID)):
        return str(m)
    return m


def same(a, b):
    sb = canon(b, True)

    def strip(x, ref):  # fields absent in ref (automatic defaults) are dropped
        if isinstance(ref, dict) and isinstance(x, dict):
            return {k: strip(v, ref[k]) for k, v in x.items() if k in ref or k not in AUTO}
        if isinstance(ref, list) and isinstance(x, list) and len(x) == len(ref):
            return [strip(p, q) for p, q in zip(x, ref)]
        return x

    return strip(canon(a, False), sb) == sb


def store(m, path, mini, com):
    return str(build_cached(m).to_file(path, comment=com, minimal=mini))


_cache: dict = {}


def build_cached(m):
    key = repr(m)
    if key not in _cache:
        _cache[key] = build(m)
    return _cache[key]


def load(cls, path):
    return cls.from_file(path)


def run(sc, ctx):
    os.environ["TZ"] = sc["tz"]
    time.tzset()
    clock(NOW, 1000)
    root = ctx.scratch / "d"
    root.mkdir()
    base = root / "sub" if sc["deep"] else root
    stem = "model{}.x" if sc.get("dot") else "model{}"
    if sc.get("dot"):  # neighbours with nearly the same name
        base.mkdir(exist_ok=True)
        for j in (0, 1):
            (base / f"model{j}.yaml").write_text("foreign")
    have: dict = {0: None, 1: None}  # model spec currently at that path (None: nothing), or "schema"
    for what, a in sc["ops"]:
        path = base / (stem.format(a["p"]) + ".yaml")
        old = have[a["p"]]
        if what in ("store", "race", "schema"):
            if what == "schema":
                m = {"kind": a["kind"], "schema": 1}
                mod = type(build_cached({"kind": a["kind"], "v": FIX, "mini": 1}))
                if m["kind"] == "cape":
                    continue  # has no json-schema (binary default value)
                go, args = (lambda p, c=mod: c.schema_to_file(p)), (path,)
            else:
                m = a["m"]
                mod = type(build_cached(m))
                go, args = store, (m, (path.with_suffix(".json") if sc.get("dot") else path.with_suffix("")) if m["v"]["b"] % 2 else path, m["mini"], m["com"])
            if not path.parent.exists() and what == "schema":
                continue  # schema_to_file expects the folder

        def current(why):
            """Which of the possible contents is at the path?"""
            if not path.exists():
                return "nothing"
            for tag, s in (("new", m), ("old", old)):
                if s is None:
                    continue
                if "schema" in s:
                    try:
                        d = yaml.safe_load(path.read_text())
                    except yaml.YAMLError:
                        continue
                    if d == type(build_cached({"kind": s["kind"], "v": FIX, "mini": 1})).model_json_schema():
                        return tag
                    continue
                cls = type(build_cached(s))
                r = process(load, cls, path)
                if r.status == "ok" and same(r.value, build_cached(s)):
                    return tag
            return "third"

        if what in ("store", "schema"):
            plan, ref = [], None
            if a["fault"]:
                # an undisturbed twin tells how many system calls there are
                twin = root / "twin"
                twin.mkdir(exist_ok=True)
                tp = twin / path.name
                if path.exists():
                    tp.write_bytes(path.read_bytes())
                ref = process(go, *([tp] if what == "schema" else [m, tp, m["mini"], m["com"]]), root=twin)
                plan = [place(a["fault"], ref.ops)]
                for x in twin.iterdir():
                    x.unlink()
                twin.rmdir()
            r = process(go, *args, root=root, plan=plan)
            ctx.absorb(r)
            legal = (not a["fault"]) or a["fault"]["k"] in LEGAL_FAULTS or not any(n for _, n in r.fired)
            ctx.check(r.status in ("ok", "exc", "died"), "store-stuck", r)
            got = current(what)
            tag = a["fault"]["k"] if a["fault"] else "-"
            ctx.ev(what, m["kind"], tag, r.status, got)
            ctx.state(what, m["kind"], tag, r.status, got)
            if r.status == "ok":
                ctx.check(got == "new", f"{what}-not-equal-{m['kind']}", lambda: diff(path, m))
                ctx.probe("loaded_new")
                if what == "store":
                    ctx.check(Path(r.value) == path, "documented-path", r.value)
                    if "dur" in m["kind"] or m["kind"] in ("emu", "hrv", "power", "gpio", "xp", "tbt", "obt", "testbed"):
                        ctx.probe("fractional_duration", int(bool(m["v"]["us"])))
                have[a["p"]] = m
            else:
                ctx.check(not (legal and r.status == "exc"), "store-failed-without-fault", r.value)
                ctx.probe("store_disturbed")
                ok = ("new", "old") if old is not None else ("new", "nothing")
                if got == "third" and old is None:
                    cls = mod
                    lr = process(load, cls, path)
                    ctx.check(lr.status != "ok" and "schema" not in m, f"third-model-loads", f"partial {what} of {m['kind']} at a fresh path loads / reads as a document: {path.read_text()[:300]}")
                    path.unlink()
                    got = "nothing"
                ctx.check(got in ok, f"{what}-not-atomic", f"{tag} during {what} of {m['kind']} left '{got}' where {ok} are allowed (old={'yes' if old else 'no'})")
                if got == "old":
                    ctx.probe("loaded_old_after_fault")
                have[a["p"]] = {"new": m, "old": old, "nothing": None}[got]
        elif what == "race":
            if old is not None and "schema" in old:
                continue
            cls = type(build_cached(m))
            ocls = type(build_cached(old)) if old else cls

            def reader(p, c=cls, o=ocls):
                out = []
                for _ in range(2):
                    try:
                        try:
                            x = o.from_file(p)
                        except ValueError:  # another type by now: the new model, for good
                            if c is o:
                                raise
                            x = c.from_file(p)
                        out.append(x)
                    except FileNotFoundError:
                        out.append("missing")
                    except Exception as e:  # noqa: BLE001
                        out.append(f"error {type(e).__name__}: {e}"[:200])
                return out

            nodes = [Node("w", go, args)] + [Node(f"r{j}", reader, (path,)) for j in range(a["n"])]
            plan = list(a["sched"])
            cnt = {"w": 0}
            killed = []

            def pick(ready, step):
                nm = ready[plan.pop(0) % len(ready)] if plan else ready[step % len(ready)]
                if nm == "w":
                    cnt["w"] += 1
                    if a["kill"] == cnt["w"]:
                        killed.append(1)
                        ctx.fault("process_killed")
                        return ("kill", nm)
                return nm

            sched, steps = interleave(nodes, root, pick)
            ctx.steps += steps
            ctx.state("race", m["kind"], "".join(sched))
            for nd in nodes[1:]:
                ctx.check(nd.result.status == "ok", "reader-stuck", nd.result)
                for x in nd.result.value:
                    if x == "missing":
                        ctx.check(old is None, "file-vanished", "a reader found no file although one existed before and after the store")
                        continue
                    if isinstance(x, str):
                        ctx.check(False, "race-torn-read", f"a concurrent load failed: {x}")
                    hit = "new" if isinstance(x, cls) and same(x, build_cached(m)) else "old" if old and isinstance(x, ocls) and same(x, build_cached(old)) else None
                    ctx.check(hit, "race-third-model", f"concurrent load returned neither old nor new: {x!r}"[:400])
                    ctx.probe("race_saw_" + hit)
            got = current("race")
            ctx.ev("race", m["kind"], nodes[0].result.status, got, "".join(s[0] + s[-1] for s in sched))
            if nodes[0].result.status == "ok":
                ctx.check(got == "new", f"store-not-equal-{m['kind']}", lambda: diff(path, m))
            else:
                ctx.check(killed, "store-failed-in-race", nodes[0].result)
            ctx.check(got in (("new", "old") if old else ("new", "nothing")), "store-not-atomic", f"killed store left {got}")
            have[a["p"]] = {"new": m, "old": old, "nothing": None}[got]
        elif what == "threads":
            if old is not None and "schema" in old:
                continue
            ms = a["ms"]
            cls = type(build_cached(ms[0]))

            def together():
                def rd():
                    out = []
                    for _ in range(2):
                        try:
                            x = cls.from_file(path)
                        except FileNotFoundError:
                            out.append("missing")
                            continue
                        except ValueError as e:
                            out.append("other type" if old and not isinstance(build_cached(old), cls) else f"error {e}"[:200])
                            continue
                        out.append(next((j for j, s in enumerate([*ms, old]) if s and same(x, build_cached(s))), f"third: {x!r}"[:300]))
                    return out

                s = Sched(a["pre"])
                res = s.run({**{f"w{j}": (lambda q=q: store(q, path, q["mini"], None)) for j, q in enumerate(ms)}, **{f"r{j}": rd for j in range(a["n"])}})
                return {k: (v[0], v[1] if v[0] == "ok" else v[-1]) for k, v in res.items()}, s.trace, s.deadlock, s.switches, s.points

            r = process(together)
            ctx.check(r.status == "ok", "store-stuck", r)
            res, trace, dead, switches, points = r.value
            ctx.check(not dead, "deadlock", trace)
            ctx.fault("preemption", switches)
            ctx.probe("threads_preempted", switches)
            ctx.steps += points
            ctx.ev("threads", points, trace)
            for x in trace:
                ctx.state("threads", x)
            for nm, (st, val) in res.items():
                ctx.check(st == "ok", "store-fails-beside-other-thread" if nm[0] == "w" else "load-fails-beside-other-thread", lambda nm=nm, val=val: f"{nm}: {val}")
                for x in val if nm[0] == "r" else []:
                    ctx.check(isinstance(x, int) or (x == "missing" and old is None) or x == "other type", "race-third-model" if str(x).startswith("third") else "race-torn-read", lambda x=x: f"{nm} saw {x}")
            m = ms[0]
            hit = None
            lr = process(load, cls, path)
            for q in ms:
                if lr.status == "ok" and same(lr.value, build_cached(q)):
                    hit = q
            ctx.check(hit is not None, "store-not-atomic", lambda: f"{len(ms)} threads stored a {m['kind']} each, the file holds none of them afterwards: {lr}"[:600])
            ctx.ev("threads-end", ms.index(hit))
            have[a["p"]] = hit
        elif what == "wrong" and old is not None and "schema" not in old:
            cls = type(build_cached({"kind": a["kind"], "v": FIX, "mini": 1}))
            if cls is type(build_cached(old)):
                continue
            r = process(load, cls, path)
            ctx.ev("wrong", r.status)
            ctx.check(r.status == "exc", "foreign-type-accepted", f"{cls.__name__}.from_file accepted a file of {old['kind']}")
        elif what == "task" and old is not None and "schema" not in old and old.get("kind") in ("emu", "hrv", "prog", "fwmod", "obt", "tbt"):
            from shepherd_core.data_models.task import extract_tasks, prepare_task

            om = build_cached(old)
            obs = om.observer_tasks[-1].observer if old["kind"] == "tbt" else None
            got = extract_tasks(prepare_task(path, obs))
            want = om.observer_tasks[-1].get_tasks() if old["kind"] == "tbt" else om.get_tasks() if old["kind"] == "obt" else [om]
            ctx.ev("task", len(got))
            ctx.check(len(got) == len(want) and all(type(x) is type(y) and same(x, y) for x, y in zip(got, want)), "extracted-tasks-differ", f"{[type(x).__name__ for x in got]}")
            ctx.probe("tasks_extracted")
        # nothing may be left that looks like a model file
        known = {"model0.yaml", "model1.yaml", stem.format(0) + ".yaml", stem.format(1) + ".yaml"}
        extra = [p.name for p in base.iterdir() if p.suffix == ".yaml" and p.name not in known] if base.exists() else []
        ctx.check(not extra, "stray-model-file", extra)
        if sc.get("dot"):
            ctx.check(all((base / f"model{j}.yaml").read_text() == "foreign" for j in (0, 1)), "foreign-model-changed", "")


FIX = {"txt": "abc", "txt2": "def", "nm": "abc", "nm2": "def", "us": 0, "s": 10, "us2": 0, "off": 0, "dus": 0, "f": 1.0, "g": 0.5, "i": 1234, "b": 3, "path": "/a/b.h5"}


def diff(path, m):
    want = build_cached(m)
    r = process(load, type(want), path)
    if r.status != "ok":
        return f"{m['kind']} does not load: {r.value[:2] if r.status == 'exc' else r}"
    a, b = canon(r.value, False), canon(want, True)
    out = []

    def rec(x, y, p):
        if isinstance(y, dict) and isinstance(x, dict):
            for k in y:
                rec(x.get(k), y[k], p + "." + k)
        elif isinstance(y, list) and isinstance(x, list) and len(x) == len(y):
            for j, (s, t) in enumerate(zip(x, y)):
                rec(s, t, f"{p}[{j}]")
        elif x != y:
            out.append(f"{p}: stored {y!r} loaded {x!r}")

    rec(a, b, m["kind"])
    return "; ".join(out)[:800] or "equal content?"


def simplify(sc):
    for k, (what, a) in enumerate(sc["ops"]):
        if a.get("fault"):
            c = json_copy(sc)
            c["ops"][k][1]["fault"] = None
            yield c
        if a.get("m"):
            for key, val in FIX.items():
                if a["m"]["v"].get(key) != val:
                    c = json_copy(sc)
                    c["ops"][k][1]["m"]["v"][key] = val
                    yield c
    for key, val in (("tz", "UTC"), ("deep", False)):
        if sc[key] != val:
            c = json_copy(sc)
            c[key] = val
            yield c


def json_copy(x):
    import copy

    return copy.deepcopy(x)
