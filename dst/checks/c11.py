"""C11: one plan derived under a ticking / jumping clock and delivered to simulated observers late, twice, torn or over an older one."""

from __future__ import annotations

import os
import time
from datetime import datetime, timedelta, timezone
from pathlib import Path
from zoneinfo import ZoneInfo

from ..sim import clock, clock_now, process
from .c05 import canon

RUNS = {"quick": 1300, "thorough": 60000}
RULE = (
    "seeded experiments (1..11 targets over 1..4 configs, custom ids, one or two firmwares, start given with / without timezone / past / not at "
    "all, default or rewired testbed) turned into plans while the clock ticks 0..2 s per read and jumps at seeded reads; the stored plan is "
    "delivered to observers with own clocks and timezones: whole, late, twice, cut, with lost blocks, over an older plan; each loads its tasks "
    "in a process of its own. Results are compared with the plan computed from the scenario and the testbed fixtures."
)
REAL = ["Experiment, TestbedTasks / ObserverTasks / all task models, from_xp, to_file, prepare_task, extract_tasks", "fixtures and test-bed client", "PyYAML, file system"]
STUB = ["wall clock and TZ of every machine", "file delivery (the simulator writes what arrives)"]
SHRINK = ["deliver", "jumps", "cfgs"]
STATE_MEASURE = "hash of (start kind, past?, clock disturbance, delivery kind, outcome)"
MUST_HIT = ["asap_plan", "naive_start", "past_refused", "late_refused", "torn_refused", "over_old", "rewired", "second_boundary", "custom_ids", "no_such_observer"]

T0 = 1_720_000_000
TZS = ["UTC", "Europe/Berlin", "America/St_Johns", "Asia/Kathmandu", "Pacific/Kiritimati", "America/New_York", "Australia/Lord_Howe"]
TARGETS = [6, 8, 3, 1, 11, 7, 5, 2, 4, 9, 10, 1001]
HOSTS = {6: ("sheep01", "A"), 8: ("sheep02", "A"), 3: ("sheep04", "A"), 1: ("sheep05", "A"), 11: ("sheep06", "A"), 7: ("sheep07", "A"), 5: ("sheep09", "A"), 2: ("sheep10", "A"), 4: ("sheep12", "A"), 9: ("sheep13", "A"), 10: ("sheep14", "A"), 1001: ("sheep05", "B")}


def warm() -> None:
    import shepherd_core.data_models  # noqa: F401
    from shepherd_core.data_models.experiment import Experiment  # noqa: F401
    from shepherd_core.data_models.task import TestbedTasks  # noqa: F401


def gen(rng, tier, i):
    tgts = rng.sample(TARGETS, rng.randrange(1, rng.choice([2, 4, 12])))
    if 1 in tgts and 1001 in tgts:
        tgts.remove(rng.choice([1, 1001]))
    cfgs, rest = [], list(tgts)
    while rest:
        n = min(len(rest), rng.choice([1, 2, 3, 12]))
        part, rest = rest[:n], rest[n:]
        cfgs.append({"t": part, "ids": rng.random() < 0.5, "extra": rng.choice([0, 0, 2]), "fw1": rng.choice(["nrf52_demo_rf", "nrf52_deep_sleep", "nrf52_testable"]), "fw2": rng.choice([None, "msp430_deep_sleep"]) if 1001 not in part else None,
                     "pt": rng.choice([None, 0.5, 7]), "gt": rng.choice([None, 9600]), "src": rng.choice(["BQ25504", "neutral", "diode+capacitor"])})
    ids = [rng.randrange(2000, 2 ** 16) for _ in range(30)]
    for edge in (0, 12, 2 ** 16 - 1):
        if rng.random() < 0.3:
            ids[rng.randrange(4)] = edge
    return {
        "tz": rng.choice(TZS), "now": T0 + rng.choice([0, 86_400 * 180, rng.randrange(3 * 10 ** 8)]), "frac": rng.choice([0, 0, 999_999_000, rng.randrange(10 ** 9)]),
        "tick": rng.choice([0, 1000, 10 ** 6, 10 ** 8, 2 * 10 ** 9]),
        "jumps": [[rng.randrange(1, 60), rng.choice([1, -1]) * rng.choice([10 ** 9, 3600 * 10 ** 9, 400 * 10 ** 9])] for _ in range(rng.choice([0, 0, 1, 2]))],
        "cfgs": cfgs, "ids": list(dict.fromkeys(ids)), "name": rng.choice(["exp", "my xp", "a_b-c", "Ünicode", "x" * 32]),
        "start": rng.choice(["none", "aware", "naive", "past"]), "lead": rng.choice([3, 60, 400, 4000, 10 ** 6, 2 * 10 ** 7]) + rng.choice([0, 0.5, 0.000001]), "off": rng.choice([0, 7200, -12600, 20700]),
        "dur": rng.choice([None, 0, 1, 30, 3600.5, 86400 * 3]), "abort": rng.random() < 0.5, "owner": rng.choice([None, 1, 4711]), "log": rng.random() < 0.5,
        "tb": rng.choice(["none", "none", "prep", "rewired"]), "prep": rng.choice([0, 1, 90.25, 3600]), "perm": rng.randrange(1 << 16),
        "mini": rng.random() < 0.6, "old": rng.random() < 0.4,
        "deliver": [{"o": rng.randrange(13), "how": rng.choice(["whole", "whole", "late", "twice", "cut", "cut", "line", "line", "hole", "over", "over"]), "at": rng.random(), "len": rng.random(), "tz": rng.choice(TZS), "delay": rng.choice([0, 1, 60, 3600])} for _ in range(rng.randrange(1, 7))],
    }


def experiment(sc, c, start):
    from shepherd_core.data_models.content import EnergyEnvironment, Firmware, VirtualSourceConfig
    from shepherd_core.data_models.experiment import Experiment, GpioTracing, PowerTracing, SystemLogging, TargetConfig

    tcs, own = [], {}
    ids = list(sc["ids"])
    for cf in c:
        cids = None
        if cf["ids"]:
            cids = [ids.pop(0) for _ in range(min(len(ids), len(cf["t"]) + cf["extra"]))]
            if len(cids) < len(cf["t"]):
                cids = None
        for k, t in enumerate(cf["t"]):
            own[t] = cids[k] if cids else t
        tcs.append(TargetConfig(
            target_IDs=cf["t"], custom_IDs=cids, energy_env=EnergyEnvironment(name="SolarSunny"), virtual_source=VirtualSourceConfig(name=cf["src"]),
            firmware1=Firmware(name=cf["fw1"]), firmware2=None if cf["fw2"] is None else Firmware(name=cf["fw2"]),
            power_tracing=None if cf["pt"] is None else PowerTracing(delay=timedelta(seconds=cf["pt"])), gpio_tracing=None if cf["gt"] is None else GpioTracing(uart_baudrate=cf["gt"])))
    kw = {} if start is None else {"time_start": start}
    return Experiment(name=sc["name"], owner_id=sc["owner"], duration=None if sc["dur"] is None else timedelta(seconds=sc["dur"]), abort_on_error=sc["abort"],
                      sys_logging=SystemLogging(dmesg=sc["log"]), target_configs=tcs, **kw), own


def testbed(sc):
    """The test bed the plan is for, and where each target sits on it."""
    from shepherd_core.data_models.testbed import Testbed

    if sc["tb"] == "none":
        return None, dict(HOSTS), 300.0
    if sc["tb"] == "prep":
        return Testbed(name="shepherd_tud_nes", prep_duration=timedelta(seconds=sc["prep"])), dict(HOSTS), float(sc["prep"])
    # rewired: targets move on by some places and to the other port, one observer without any of the targets is out of service
    tb = Testbed()
    raw = tb.model_dump()
    obs = raw["observers"]
    tgts = [t for t in HOSTS if t not in (1001,)]
    sh = 1 + sc["perm"] % (len(tgts) - 1)
    names = [HOSTS[t][0] for t in tgts]
    hosts = {}
    by = {o["name"]: o for o in obs}
    full = {o["target_a"]["id"]: o["target_a"] for o in obs if o["target_a"]}
    spare = by["sheep05"]["target_b"]
    if sc["perm"] & 4096:  # IDs on the air differ from the IDs in the database
        for t, x in full.items():
            x["testbed_id"] = 1900 - 3 * t
    for o in obs:
        o["target_a"] = o["target_b"] = None
    for k, t in enumerate(tgts):
        nm = names[(k + sh) % len(names)]
        port = "AB"[(sc["perm"] >> k) & 1]
        by[nm][f"target_{port.lower()}"] = full[t]
        hosts[t] = (nm, port)
    used = {t for c in sc["cfgs"] for t in c["t"]}
    free = [h for t, h in hosts.items() if t not in used]
    # the spare target goes to the free port of an observer that is not in use otherwise
    if free:
        nm, port = free[0]
        by[nm][f"target_{'b' if port == 'A' else 'a'}"] = spare
        hosts[1001] = (nm, "B" if port == "A" else "A")
    else:
        hosts.pop(1001, None)
    if len(free) > 1:
        by[free[1][0]]["active"] = False
    return Testbed(**raw), hosts, 300.0


def tasks_of(plan):
    return {
        o.observer: [("ObserverTasks", {"observer": o.observer, "time_prep": o.time_prep.timestamp(), "root_path": str(o.root_path)})] + [(type(t).__name__, canon(t, False)) for t in o.get_tasks()]
        for o in plan.observer_tasks
    }


def td(x):
    return timedelta(seconds=x)


def load(path, obs, clk_now, tz, tick=0):
    from shepherd_core.data_models.task import ObserverTasks, extract_tasks, prepare_task

    os.environ["TZ"] = tz
    time.tzset()
    clock(clk_now, tick)
    wrap = prepare_task(path, obs)
    own = ObserverTasks(**wrap.parameters)
    # instants as this machine understands them
    head = ("ObserverTasks", {"observer": own.observer, "time_prep": own.time_prep.timestamp(), "root_path": str(own.root_path)})
    return [head] + [(type(t).__name__, canon(t, False)) for t in extract_tasks(wrap)]


def run(sc, ctx):
    from shepherd_core.data_models.task import TestbedTasks

    os.environ["TZ"] = sc["tz"]
    time.tzset()
    now = sc["now"] * 10 ** 9 + sc["frac"]
    cfgs = [c for c in sc["cfgs"] if c["t"]]
    if not cfgs:
        return
    clock(now, 0)
    tb, hosts, prep = testbed(sc)
    if any(t not in hosts for c in cfgs for t in c["t"]):
        tb, hosts, prep = None, dict(HOSTS), 300.0
    elif sc["tb"] == "rewired":
        ctx.probe("rewired")
    # the start the user asks for
    t_abs = sc["now"] + sc["frac"] / 1e9 + (sc["lead"] if sc["start"] != "past" else -sc["lead"] - 0.01)
    start = None
    if sc["start"] == "naive":
        local = datetime.fromtimestamp(t_abs, tz=ZoneInfo(sc["tz"]))
        start = local.replace(tzinfo=None, fold=0)
        want = start.replace(tzinfo=ZoneInfo(sc["tz"])).timestamp()
        if datetime.fromtimestamp(want, tz=ZoneInfo(sc["tz"])).replace(tzinfo=None, fold=0) != start:
            return  # a local time that does not exist
        t_abs = want
        ctx.probe("naive_start")
    elif sc["start"] in ("aware", "past"):
        start = datetime.fromtimestamp(t_abs, tz=timezone(timedelta(seconds=sc["off"])))
        t_abs = start.timestamp()
    xp, own = experiment(sc, cfgs, start)
    if tb is not None and sc["tb"] == "rewired" and sc["perm"] & 4096:
        plain = {t for c in cfgs for t in c["t"] if t != 1001 and own[t] == t}
        own = {t: 1900 - 3 * t if t in plain and xp.get_target_config(t).get_custom_id(t) is None else i for t, i in own.items()}
        ctx.probe("own_testbed_id", len(plain))
    ctx.probe("custom_ids", int(any(c["ids"] for c in cfgs)))
    old = None
    if sc["old"]:
        sc2 = {**sc, "name": "older", "ids": sc["ids"][::-1], "dur": 77, "owner": 99}
        xo, _ = experiment(sc2, [{**cfgs[0], "ids": True}], None)
        old = TestbedTasks.from_xp(xo, tb)

    # derive
    clock(now, sc["tick"], sc["jumps"])
    c0 = clock_now()
    try:
        plan = TestbedTasks.from_xp(xp, tb)
        err = None
    except ValueError as e:
        plan, err = None, e
    c1 = clock_now()
    neg = sum(-j for _, j in sc["jumps"] if j < 0)
    pos = sum(j for _, j in sc["jumps"] if j > 0)
    lo, hi = (min(c0, c1) - neg - pos) / 1e9, (max(c0, c1) + neg + pos) / 1e9
    ctx.simtime(max(0, c1 - c0))
    ctx.fault("clock_jump", len(sc["jumps"]))
    ctx.probe("second_boundary", int(c0 // 10 ** 9 != c1 // 10 ** 9))
    dist = (bool(sc["jumps"]), sc["tick"] > 0)
    ctx.ev("derive", sc["start"], "refused" if err else "ok", c1 - c0)
    ctx.state("derive", sc["start"], bool(err), dist, len(cfgs), sc["tb"])
    if start is not None and t_abs < lo:
        ctx.check(err is not None, "past-start-accepted", f"start {start} although the clock read at least {lo}")
    if start is None or t_abs > hi:
        ctx.check(err is None, "future-start-refused", f"{err} (start {start}, clock at most {hi})")
    if err is not None:
        ctx.probe("past_refused")
        return

    def check_plan(pl):
        obs = pl.observer_tasks
        want_t = [t for c in cfgs for t in c["t"]]
        ctx.check([o.observer for o in obs] == [hosts[t][0] for t in want_t], "wrong-observers", f"{[o.observer for o in obs]} for targets {want_t}")
        preps = {(o.time_prep.timestamp() if o.time_prep.tzinfo else ("naive", o.time_prep.isoformat())) for o in obs}
        ctx.check(len(preps) == 1, "different-preparation-times", f"{sorted(map(str, preps))}")
        roots = {str(o.root_path) for o in obs}
        ctx.check(len(roots) == 1, "different-result-directories", f"{sorted(roots)}")
        root = Path(roots.pop())
        t_prep = obs[0].time_prep
        t_prep = t_prep.timestamp()  # a naive one is local time of the machine
        if start is not None:
            ctx.check(abs(t_prep + prep - t_abs) < 1e-4, "preparation-lead", f"preparation at {obs[0].time_prep}, start at {t_abs}, lead time {prep} s")
        else:
            ctx.probe("asap_plan")
            ctx.check(lo - 1 <= t_prep + prep - 180 <= hi + 1, "asap-start", f"preparation at {t_prep}, clock {lo} .. {hi}, lead {prep}")
        begin = t_prep + prep if start is None else t_abs
        zone = ZoneInfo(sc["tz"]) if start is None or start.tzinfo is None else start.tzinfo
        nm = sc["name"] + "_" + datetime.fromtimestamp(round(begin, 6), tz=zone).strftime("%Y-%m-%d_%H-%M-%S")
        ctx.check(root == Path("/var/shepherd/experiments") / nm, "result-directory", f"{root} instead of {nm}")
        files = []
        for o, t in zip(obs, want_t):
            cf = next(c for c in cfgs if t in c["t"])
            host, port = hosts[t]
            ctx.check(o.owner_id == sc["owner"] and o.abort_on_error == sc["abort"], "owner-or-abort", o)
            for n in (1, 2):
                fm, fp = getattr(o, f"fw{n}_mod"), getattr(o, f"fw{n}_prog")
                fwn = cf[f"fw{n}"]
                ctx.check((fm is not None) == (fwn is not None) == (fp is not None), "firmware-tasks-missing", f"{o.observer} fw{n}")
                if fwn is None:
                    continue
                fw = next(x for x in (xp.get_target_config(t)[f"firmware{n}"],))
                ctx.check(fw.name == fwn, "config-mixup", f"{fw.name} vs {fwn}")
                ctx.check(fm.data == fw.data and fm.data_type == fw.data_type, "wrong-firmware", f"{o.observer} fw{n}")
                ctx.check(fm.custom_id == own[t], "wrong-custom-id", f"{o.observer} target {t}: {fm.custom_id} instead of {own[t]}")
                ctx.check(fm.firmware_file == fp.firmware_file and fm.firmware_file.parent == root, "firmware-file", f"{fm.firmware_file} {fp.firmware_file}")
                ctx.check(fp.target_port == port and fp.mcu_port == n and fp.mcu_type == fw.mcu.name and fp.protocol == fw.mcu.prog_protocol and fp.voltage == fw.mcu.prog_voltage and fp.datarate == fw.mcu.prog_datarate, "programming-wiring", f"{o.observer} {fp}")
                files.append(str(fm.firmware_file))
            em = o.emulation
            ctx.check(em is not None and em.output_path is not None and em.output_path.parent == root, "emulation-output", f"{o.observer}: {em and em.output_path}")
            files.append(str(em.output_path))
            ctx.check(em.io_port == port and em.pwr_port == port, "emulation-wiring", f"{o.observer}: {em.io_port} {em.pwr_port} instead of {port}")
            if start is None:
                ctx.check(em.time_start is None, "start-invented", em.time_start)
            else:
                ctx.check(em.time_start is not None and abs(em.time_start.timestamp() - t_abs) < 2e-6, "start-changed", f"{em.time_start} instead of {start} ({t_abs})")
            ctx.check(em.duration == (None if sc["dur"] is None else td(sc["dur"])), "duration-changed", f"{em.duration} instead of {sc['dur']}")
            ctx.check(em.enable_io == (cf["gt"] is not None) and em.virtual_source.name == cf["src"] and (em.gpio_tracing is None) == (cf["gt"] is None) and (em.power_tracing is None) == (cf["pt"] is None), "emulation-config", f"{o.observer}")
            if cf["pt"] is not None:
                ctx.check(em.power_tracing.delay == td(cf["pt"]), "tracing-config", em.power_tracing)
            ctx.check(em.input_path == xp.get_target_config(t).energy_env.data_path and em.abort_on_error == sc["abort"] and em.sys_logging == xp.sys_logging, "emulation-config", o.observer)
            names = [type(x).__name__ for x in o.get_tasks()]
            ctx.check(names == ["FirmwareModTask"] * (1 + (cf["fw2"] is not None)) + ["ProgrammingTask"] * (1 + (cf["fw2"] is not None)) + ["EmulationTask"], "task-order", names)
        ctx.check(len(files) == len(set(files)), "files-collide", files)
        ctx.check(pl.get_output_paths() == {o.observer: o.emulation.output_path for o in obs} and pl.name == sc["name"], "output-paths", pl.get_output_paths())

    check_plan(plan)
    again = tasks_of(plan)

    # deliver
    clock(now, 1000)
    src = plan.to_file(ctx.scratch / "plan.yaml", minimal=sc["mini"])
    data = Path(src).read_bytes()
    odata, owant = b"", {}
    if old is not None:
        odata = Path(old.to_file(ctx.scratch / "older.yaml", minimal=sc["mini"])).read_bytes()
        owant = tasks_of(old)
    names = list(again) + ["sheep99"]
    strangers = {x for n in again for x in (n[:-1], n[1:], n + "0", n[:-1] + "_", n.upper(), "x" + n)} | {"sheep0", "sheep", " "}
    for nm in sorted(strangers - set(again)):
        ctx.check(plan.get_observer_tasks(nm) is None, "tasks-for-unknown-observer", f"{nm!r} gets {plan.get_observer_tasks(nm) and plan.get_observer_tasks(nm).observer}")
    for o in plan.observer_tasks:
        ctx.check(plan.get_observer_tasks(o.observer) == o, "not-its-own-tasks", o.observer)
    names += sorted(strangers - set(again))[: 1 + len(again)]
    for k, d in enumerate(sc["deliver"]):
        ob = names[d["o"] % len(names)]
        dst = ctx.scratch / f"inbox{k}.yaml"
        how = d["how"]
        at = int(d["at"] * len(data))
        t_obs = now + int(d["delay"] * 1e9)
        intact = False
        if how == "twice":
            dst.write_bytes(data)
            dst.write_bytes(data)
            intact = True
        elif how in ("whole", "late"):
            dst.write_bytes(data)
            intact = True
            if how == "late":
                t_obs = now + int((sc["lead"] + 1 + d["delay"]) * 1e9)
                ctx.fault("delivery_delayed")
        elif how == "cut":
            dst.write_bytes(data[:at])
        elif how == "line":  # torn at the end of a line, mostly near the end
            cuts = [j + 1 for j in range(len(data)) if data[j] == 10]
            j = cuts[int((1 - d["at"] ** 3 * 0.999) * len(cuts)) - 1]
            dst.write_bytes(data[:j])
            intact = j == len(data)
        elif how == "hole":
            n = 1 + int(d["len"] * 600)
            dst.write_bytes(data[:at] + b"\0" * min(n, len(data) - at) + data[at + n:])
        elif how == "over":
            base = odata if d["len"] < 0.7 or not odata else odata + odata
            dst.write_bytes(data[:at] + base[at:])
            if at >= len(data) - 1 and len(base) <= len(data):
                intact = False
            ctx.probe("over_old", int(bool(odata)))
        if how in ("cut", "line", "hole", "over"):
            ctx.fault("delivery_torn")
        r = process(load, dst, ob, t_obs, d["tz"], 1000)
        ctx.check(r.status in ("ok", "exc"), "load-crashed", r)
        ctx.ev("deliver", how, ob, r.status, r.value[0] if r.status == "exc" else len(r.value))
        ctx.state("deliver", how, r.status, r.value[0] if r.status == "exc" else "", bool(odata), sc["start"])
        must_refuse = ob not in again and not (ob in owant and how == "over")
        late = start is not None and t_obs / 1e9 > t_abs + 1e-3
        early = start is None or t_obs / 1e9 < t_abs - 1
        if must_refuse:
            ctx.check(r.status == "exc", "tasks-for-unknown-observer", r)
            ctx.probe("no_such_observer")
            continue
        if late:
            ctx.check(r.status == "exc" or (how == "over" and r.value == owant.get(ob)), "late-plan-accepted", f"observer clock {t_obs / 1e9}, start {t_abs}")
            ctx.probe("late_refused")
            continue
        if r.status == "ok":
            ok = ob in again and r.value == again[ob]
            if how == "over" and not ok:
                ok = r.value == owant.get(ob)
            ctx.check(ok, "not-its-own-tasks" if intact else "partial-or-foreign-tasks", lambda: why(r.value, again.get(ob), how, at, len(data)))
            if not intact:
                ctx.probe("torn_harmless")
        else:
            ctx.check(not intact or not early, "intact-plan-refused", f"{how}: {r.value[:2]}")
            if not intact:
                ctx.probe("torn_refused")


def why(got, want, how, at, n):
    if want is None:
        return f"{how} at byte {at} of {n}: {len(got)} tasks for an observer that is not in the plan"
    if [x[0] for x in got] != [x[0] for x in want]:
        return f"{how} at byte {at} of {n}: loaded {[x[0] for x in got]} instead of {[x[0] for x in want]}"
    out = []
    for (t, a), (_, b) in zip(got, want):
        for k in b:
            if a.get(k) != b[k]:
                out.append(f"{t}.{k}: {str(a.get(k))[-80:]!r} instead of {str(b[k])[-80:]!r}")
    return f"{how} at byte {at} of {n}: " + "; ".join(out)[:700]


def simplify(sc):
    import copy

    for k, v in (("tz", "UTC"), ("frac", 0), ("tick", 0), ("jumps", []), ("tb", "none"), ("name", "exp"), ("dur", None), ("owner", None), ("old", False), ("mini", True), ("abort", False), ("log", False), ("off", 0), ("now", T0)):
        if sc[k] != v:
            yield {**copy.deepcopy(sc), k: v}
    for k, c in enumerate(sc["cfgs"]):
        for key, v in (("t", c["t"][:1]), ("ids", False), ("extra", 0), ("fw2", None), ("pt", None), ("gt", None), ("src", "neutral")):
            if c[key] != v:
                s = copy.deepcopy(sc)
                s["cfgs"][k][key] = v
                yield s
