"""C21: local time, start times and exported timestamps under simulated clocks in every timezone, around its switches."""

from __future__ import annotations

import logging
import os
import re
import time
from datetime import date, datetime, timedelta, timezone

from unittest import mock
from zoneinfo import ZoneInfo

import h5py
import numpy as np

from .. import sim

RUNS = {"quick": 5500, "thorough": 60000}
RULE = (
    "a seeded timezone (all DST styles incl. inverse, half-hour and abolished ones) and instant (mostly around a switch of that zone), a clock that ticks or is stepped by NTP / "
    "an admin between reads. Local time, task start times in every notation, file ages, csv-, log- and uart-exports of recordings made in another season are compared with zoneinfo."
)
REAL = ["timezone helpers, tasks and experiment models", "Reader.save_csv / save_log / warn_logs, cli extract-uart, Wrapper files", "glibc's timezone rules (TZ / tzset)", "HDF5 files"]
STUB = ["wall clock through libsim", "the waveform decoder behind extract-uart (returns seeded lines)"]
SHRINK = ["ops"]
STATE_MEASURE = "hash of (zone, offset in force, kind of instant, operation, outcome)"
MUST_HIT = ["summer", "winter", "switch_between_reads", "fold", "gap", "clock_stepped", "other_season_log", "past_refused", "date_start", "far_zone"]

ZONES = [
    "UTC", "Europe/Berlin", "Europe/Berlin", "Europe/London", "Europe/Dublin", "Africa/Casablanca", "America/New_York", "America/Los_Angeles", "America/St_Johns", "America/Sao_Paulo",
    "America/Santiago", "Asia/Kolkata", "Asia/Kathmandu", "Asia/Tehran", "Asia/Tokyo", "Australia/Lord_Howe", "Australia/Sydney", "Pacific/Chatham", "Pacific/Apia", "Pacific/Kiritimati",
    "Europe/Istanbul", "Antarctica/Troll", "America/Havana", "Africa/Cairo", "Etc/GMT+12", "Asia/Gaza",
]
NS = 10**9
_SW: dict = {}


def switches(zone):
    """Instants (s) at which the zone's offset changes, 2016..2035."""
    if zone not in _SW:
        z = ZoneInfo(zone)
        out = []
        t = 1_451_606_400
        end = 2_082_758_400

        def off(x):
            return datetime.fromtimestamp(x, tz=z).utcoffset()

        step = 5 * 86400
        while t < end:
            if off(t) != off(t + step):
                lo, hi = t, t + step
                while hi - lo > 1:
                    m = (lo + hi) // 2
                    if off(m) == off(lo):
                        lo = m
                    else:
                        hi = m
                out.append(hi)
            t += step
        _SW[zone] = out
    return _SW[zone]


def gen_instant(rng, zone):
    sw = switches(zone)
    if sw and rng.random() < 0.6:
        return rng.choice(sw) + rng.choice([0, -1, 1, -0.001, 0.001, -3600, 3600, -1800, -7200, 1799, 5400, rng.uniform(-90000, 90000)])
    return rng.uniform(1_460_000_000, 2_080_000_000)


def gen_op(rng, zone):
    r = rng.random()
    if r < 0.05:
        return {"op": "date"}
    if r < 0.25:
        return {"op": "now", "n": rng.randrange(1, 6)}
    if r < 0.65:
        form = rng.choice(["int", "float", "naive", "naive", "iso_naive", "iso_naive", "iso_space", "aware", "iso_aware", "date", "iso_date", "none"])
        return {"op": "start", "task": rng.choice(["emu", "harv", "xp"]), "form": form, "rel": rng.choice([60, 3600, 86400, 180 * 86400, rng.uniform(10, 400 * 86400), "switch", "switch", "switch", -10, -86400]), "d": rng.choice([0, -1, 1, -1800, 1800, -3600, 3599, 5400]), "off": rng.choice([0, 60, -210, 345, 840]), "yaml": rng.random() < 0.4}
    if r < 0.75:
        return {"op": "age", "age": rng.choice([0, 5, 86399, 86400, 86401, 3600, 7200, rng.uniform(0, 200_000)]), "limit": rng.choice([86400, 3600, 5])}
    if r < 0.8:
        return {"op": "wrapper"}
    return {"op": "export", "what": rng.choice(["csv", "log", "warn", "uart"]), "t": [gen_instant(rng, zone) for _ in range(rng.randrange(1, 6))]}


def gen(rng, tier, i):
    zone = rng.choice(ZONES)
    return {
        "zone": zone, "now": gen_instant(rng, zone), "tick": rng.choice([0, 1000, 10**6, 4 * 10**8]), "jumps": [[rng.randrange(0, 12), rng.choice([-7200, -3600, -1, 0.002, 1, 3600, 86400 * 182, -86400 * 182]) * NS] for _ in range(rng.choice([0, 0, 0, 1, 2]))],
        "ops": [gen_op(rng, zone) for _ in range(rng.randrange(1, 6))],
    }


def warm():
    import shepherd_core.data_models.task  # noqa: F401
    import shepherd_data.cli  # noqa: F401


def run(sc, ctx):
    old_tz = os.environ.get("TZ")
    os.environ["TZ"] = sc["zone"]
    time.tzset()
    try:
        _run(sc, ctx)
    finally:
        sim.clock_off()
        if old_tz is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old_tz
        time.tzset()


def _run(sc, ctx):
    from shepherd_core import local_now, local_tz
    from shepherd_core.data_models.base.calibration import CapeData
    from shepherd_core.data_models.base.timezone import local_iso_date
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.data_models.experiment import Experiment, TargetConfig
    from shepherd_core.data_models.task import EmulationTask, HarvestTask, ObserverTasks
    from shepherd_core.testbed_client.fixtures import file_older_than

    z = ZoneInfo(sc["zone"])
    root = ctx.scratch / "d"
    root.mkdir()
    now0 = int(sc["now"] * NS)
    jumps = [[a, int(b)] for a, b in sc["jumps"]]
    ctx.probe("clock_stepped", int(bool(jumps)))
    ctx.probe("far_zone", int(abs(datetime.fromtimestamp(sc["now"], tz=z).utcoffset().total_seconds()) > 11 * 3600))
    if jumps:
        ctx.fault("clock_step", len(jumps))
    sim.clock(now0, sc["tick"], jumps)

    def dst_kind(t):
        d = datetime.fromtimestamp(t, tz=z)
        ctx.probe("summer", int(bool(d.dst())))
        ctx.probe("winter", int(not d.dst()))
        ctx.probe("fold", d.fold)
        return str(d.utcoffset())

    def bounds(before, after):
        """Range of instants the clock could show in between (steps included)."""
        sums = [0]
        for k in range(1 << len(jumps)):
            sums.append(sum(b for i, (_, b) in enumerate(jumps) if k >> i & 1))
        lo = min(before, after, *(before + x for x in sums))
        hi = max(before, after, *(before + x for x in sums))
        slack = 40 * sc["tick"]
        return (lo - 2000) / NS - 1e-6, (hi + slack + 2000) / NS + 1e-6

    def wall(t):
        return datetime.fromtimestamp(t, tz=z).replace(tzinfo=None)

    def check_wall(text, t, key, why):
        got = datetime.strptime(text, "%Y-%m-%d %H:%M:%S.%f")
        ctx.check(abs((got - wall(t)).total_seconds()) < 5e-6, key, lambda: f"{why}: {text!r}, in {sc['zone']} it was {wall(t)} ({t})")

    for j, o in enumerate(sc["ops"]):
        op = o["op"]
        why = f"op {j} {o} in {sc['zone']}, clock {datetime.fromtimestamp(sim.clock_now() / NS, tz=z)}"
        if op == "now":
            for _ in range(o["n"]):
                b = sim.clock_now()
                r = local_now()
                a = sim.clock_now()
                t = r.timestamp()
                lo, hi = bounds(b, a)
                ctx.check(lo <= t <= hi, "wrong-instant", lambda: f"{why}: {r} = {t}, clock showed {lo}..{hi}")
                want = datetime.fromtimestamp(t, tz=z).utcoffset()
                ctx.check(r.utcoffset() == want, "wrong-offset", lambda: f"{why}: {r}, the offset in force was {want}")
                k = dst_kind(t)
                ctx.probe("switch_between_reads", int(datetime.fromtimestamp(b / NS, tz=z).utcoffset() != datetime.fromtimestamp(a / NS, tz=z).utcoffset()))
                b = sim.clock_now()
                tz = local_tz()
                a = sim.clock_now()
                lo, hi = bounds(b, a)
                offs = {datetime.fromtimestamp(x, tz=z).utcoffset() for x in (lo, hi, b / NS, a / NS)} if not jumps else None
                got = tz.utcoffset(datetime.fromtimestamp(a / NS, tz=timezone.utc).replace(tzinfo=None))
                ctx.check(offs is None or got in offs, "wrong-offset", lambda: f"{why}: local_tz() = {tz}, in force: {offs}")
                ctx.state(sc["zone"], k, "now")
            ctx.ev(op, str(r))
        elif op == "date":
            b = sim.clock_now()
            got = [local_iso_date(), CapeData(serial_number="1").cal_date]
            a = sim.clock_now()
            lo, hi = bounds(b, a)
            ok = {wall(x).date().isoformat() for x in (lo, hi, b / NS, a / NS, *((b + s) / NS for _, s in jumps))}
            ctx.probe("other_date", int(datetime.fromtimestamp(b / NS, tz=timezone.utc).date() != wall(b / NS).date()))
            ctx.check(len(jumps) > 1 or set(got) <= ok, "wrong-date", lambda: f"{why}: {got}, in {sc['zone']} it was {sorted(ok)}")
            ctx.ev(op, *got)
        elif op == "start":
            now = sim.clock_now() / NS
            rel = o["rel"]
            if rel == "switch":
                nxt = [s for s in switches(sc["zone"]) if s > now + 8000]
                inst = (nxt[0] if nxt else now + 86400) + o["d"]
            else:
                inst = now + rel
            inst = round(inst)
            form = o["form"]
            w = wall(inst)
            if form == "int":
                val, want = int(inst), inst
            elif form == "float":
                val, want = inst + 0.25, inst + 0.25
            elif form in ("naive", "iso_naive", "iso_space"):
                # wall-clock time, may not exist (gap) or exist twice (fold, first one is meant)
                if rel == "switch" and o["d"] >= 0:
                    w = wall(inst - 7200) + timedelta(seconds=7200)
                val = w if form == "naive" else w.isoformat(sep=" " if form == "iso_space" else "T")
                loc = w.replace(tzinfo=z, fold=w.fold if form == "naive" else 0)
                want = loc.timestamp()
                ctx.probe("gap", int(wall(want) != w))
            elif form in ("aware", "iso_aware"):
                val = datetime.fromtimestamp(inst, tz=timezone(timedelta(minutes=o["off"])))
                want = inst
                if form == "iso_aware":
                    val = val.isoformat()
            elif form in ("date", "iso_date"):
                d = date(w.year, w.month, w.day)
                val = d if form == "date" else d.isoformat()
                want = datetime(d.year, d.month, d.day, tzinfo=z).timestamp()
                ctx.probe("date_start")
            else:
                val = want = None
            b = sim.clock_now()
            err = got = None
            try:
                if o["task"] == "emu":
                    got = EmulationTask(input_path="/in.h5", time_start=val).time_start
                elif o["task"] == "harv":
                    got = HarvestTask(output_path="/out.h5", time_start=val, duration=10).time_start
                else:
                    if form in ("int", "float") and val is not None:
                        # pydantic's own reading of numbers
                        pass
                    xp = Experiment(name="xp", owner_id=1, time_start=val, duration=30, target_configs=[TargetConfig(target_IDs=[1], energy_env={"name": "SolarSunny"}, firmware1={"name": "nrf52_demo_rf"})])
                    from shepherd_core.data_models.testbed import Testbed

                    tsk = ObserverTasks.from_xp(xp, Testbed(), 1)
                    got = tsk.emulation.time_start if val is not None else tsk.time_prep + Testbed().prep_duration
            except ValueError as e:
                err = e
            except Exception as e:  # noqa: BLE001
                ctx.check(False, "start-time-crashes", f"{why}: {val!r}: {type(e).__name__}: {e}")
            a = sim.clock_now()
            lo, hi = bounds(b, a)
            if want is None:
                if o["task"] == "xp":
                    ctx.check(got is not None and err is None and lo - 1 <= got.timestamp() - 180 <= hi + 1, "wrong-default-start", lambda: f"{why}: {got} {err}")
                else:
                    ctx.check(err is None and got is None, "wrong-default-start", lambda: f"{why}: {got} {err}")
            elif want >= hi:
                ctx.check(err is None, "future-start-refused", lambda: f"{why}: {val!r} = {datetime.fromtimestamp(want, tz=z)}: {err}")
            elif want < lo:
                ctx.check(err is not None, "past-start-accepted", lambda: f"{why}: {val!r} = {datetime.fromtimestamp(want, tz=z)} -> {got}")
                ctx.probe("past_refused")
            if err is None and want is not None:
                ctx.check(got is not None and got.tzinfo is not None and abs(got.timestamp() - want) < 2e-6, "start-time-shifted", lambda: f"{why}: {val!r} means {datetime.fromtimestamp(want, tz=z)} ({want}), became {got} ({got and got.timestamp()})")
                if o["yaml"] and o["task"] != "xp" and want > hi + 100 and not jumps:
                    cls = EmulationTask if o["task"] == "emu" else HarvestTask
                    m = cls(time_start=val, **({"input_path": "/in.h5"} if o["task"] == "emu" else {"output_path": "/out.h5", "duration": 10}))
                    p = m.to_file(root / f"t{j}.yaml")
                    m2 = cls.from_file(p)
                    ctx.check(abs(m2.time_start.timestamp() - want) < 2e-6, "start-time-shifted", lambda: f"{why}: {val!r} is {m2.time_start} after reading the file")
            ctx.state(sc["zone"], o["task"], form, rel if isinstance(rel, str) else rel > 0, err is None)
            ctx.ev(op, o["task"], form, err is None, str(got))
        elif op == "age":
            f = root / f"f{j}"
            f.write_bytes(b"x")
            b = sim.clock_now()
            os.utime(f, ns=(b, b - int(o["age"] * NS)))
            got = file_older_than(f, timedelta(seconds=o["limit"]))
            a = sim.clock_now()
            lo, hi = bounds(b, a)
            m = (b - int(o["age"] * NS)) / NS
            sure_old, sure_new = lo - m > o["limit"] + 1e-5, hi - m < o["limit"] - 1e-5
            ctx.check(not (sure_old and not got) and not (sure_new and got), "wrong-file-age", lambda: f"{why}: {got}, {lo - m}..{hi - m} s old")
            ctx.ev(op, got)
        elif op == "wrapper":
            b = sim.clock_now()
            p = TargetConfig(target_IDs=[1], energy_env={"name": "SolarSunny"}, firmware1={"name": "nrf52_demo_rf"}).to_file(root / f"w{j}.yaml", minimal=False)
            a = sim.clock_now()
            import yaml

            w = Wrapper(**yaml.safe_load(p.read_text()))
            lo, hi = bounds(b, a)
            ctx.check(w.created is not None and w.created.tzinfo is not None and lo <= w.created.timestamp() <= hi, "wrong-creation-time", lambda: f"{why}: {w.created}")
            want = datetime.fromtimestamp(w.created.timestamp(), tz=z).utcoffset()
            ctx.check(f"{want < timedelta(0) and '-' or '+'}{abs(want).seconds // 3600:02d}:{abs(want).seconds // 60 % 60:02d}" in p.read_text() or want == timedelta(0), "wrong-offset", lambda: f"{why}: {w.created}, offset in force {want}: {[x for x in p.read_text().splitlines() if 'created' in x]}")
            ctx.ev(op)
        else:
            export(o, j, root, ctx, check_wall, why)
            now_off = datetime.fromtimestamp(sim.clock_now() / NS, tz=z).utcoffset()
            for t in o["t"]:
                ctx.probe("other_season_log", int(datetime.fromtimestamp(t, tz=z).utcoffset() != now_off))
                k = dst_kind(t)
            ctx.state(sc["zone"], k, o["what"])
            ctx.ev(op, o["what"], len(o["t"]))
    ctx.simtime(abs(sim.clock_now() - now0))


def recording(path, ts):
    from shepherd_core import Writer

    with Writer(path, mode="harvester", datatype="ivsample", window_samples=0, force_overwrite=True) as w:
        w.store_hostname("node")
        w.append_iv_data_si(ts[0], np.ones(10000), np.ones(10000) * 1e-3)
    with h5py.File(path, "r+") as h:
        g = h.create_group("sheep")
        t = np.array([round(x * NS) for x in ts], dtype="<u8")
        g.create_dataset("time", data=t)
        g["time"].attrs["description"] = "system time [s] = value * gain"
        g["time"].attrs["gain"] = 1e-9
        g.create_dataset("level", data=np.full(len(ts), 40, dtype="<u1"))
        g["level"].attrs["description"] = "level"
        g.create_dataset("message", data=[f"entry {k}" for k in range(len(ts))], dtype=h5py.special_dtype(vlen=str))
        g["message"].attrs["description"] = "message"
        g = h.create_group("sysutil")
        h.copy("sheep/time", g)
        g.create_dataset("cpu", data=np.arange(len(ts), dtype="<u4"))
        g["cpu"].attrs["description"] = "cpu_util [%]"


def export(o, j, root, ctx, check_wall, why):
    from shepherd_data import Reader

    ts = [round(t * 1e6) / 1e6 for t in o["t"]]
    p = root / f"r{j}.h5"
    recording(p, ts)
    what = o["what"]
    if what == "uart":
        from click.testing import CliRunner
        from shepherd_data.cli import cli

        with mock.patch.object(Reader, "gpio_to_uart", lambda self: [(t, f"line {k}") for k, t in enumerate(ts)]):
            r = CliRunner().invoke(cli, ["extract-uart", str(p)], catch_exceptions=True)
        out = p.with_suffix(".uart_from_wf.log")
        ctx.check(out.is_file(), "export-missing", lambda: f"{why}: {r.output[-300:]} {r.exception}")
        lines = out.read_text().splitlines()
        ctx.check(len(lines) == len(ts), "export-incomplete", lambda: f"{why}: {len(lines)} lines")
        for ln, t in zip(lines, ts):
            check_wall(ln[:26], t, "wrong-exported-time", why)
        return
    with Reader(p, verbose=False) as r:
        if what == "csv":
            r.save_csv(r.h5file["sysutil"], separator=";")
            lines = p.with_suffix(".sysutil.csv").read_text(encoding="utf-8-sig").splitlines()[1:]
        elif what == "log":
            r.save_log(r.h5file["sheep"])
            lines = p.with_suffix(".sheep.log").read_text(encoding="utf-8-sig").splitlines()
        else:
            got = []

            class H(logging.Handler):
                def emit(self, rec):
                    got.append(rec.getMessage())

            h = H()
            log = getattr(r, "_logger", logging.getLogger())
            log.addHandler(h)
            logging.disable(logging.NOTSET)
            try:
                r.warn_logs("sheep", 30, limit=100)
            finally:
                logging.disable(logging.CRITICAL)
                log.removeHandler(h)
            got = [m for m in got if "entry " in m]
            ctx.check(len(got) == len(ts), "export-incomplete", lambda: f"{why}: {got}")
            for m, t in zip(got, ts):
                s = re.search(r"\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d(\.\d+)?[+-]\d\d:\d\d(:\d\d)?", m)
                ctx.check(s is not None, "no-timestamp", lambda: f"{why}: {m}")
                d = datetime.fromisoformat(s.group(0))
                ctx.check(abs(d.timestamp() - t) < 5e-6, "wrong-exported-time", lambda: f"{why}: {m}, should be {t}")
                check_wall(d.strftime("%Y-%m-%d %H:%M:%S.%f"), t, "wrong-exported-time", why)
            return
    ctx.check(len(lines) == len(ts), "export-incomplete", lambda: f"{why}: {len(lines)} lines for {len(ts)} entries")
    for ln, t in zip(lines, ts):
        check_wall(ln[:26], t, "wrong-exported-time", why)


def simplify(sc):
    import copy

    for k, v in (("jumps", []), ("tick", 0), ("zone", "Europe/Berlin")):
        if sc[k] != v:
            yield {**copy.deepcopy(sc), k: v}
    for k, o in enumerate(sc["ops"]):
        if len(o.get("t", [])) > 1:
            s = copy.deepcopy(sc)
            s["ops"][k]["t"] = o["t"][:1]
            yield s
