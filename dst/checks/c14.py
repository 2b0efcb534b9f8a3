"""C14: many virtual sources, harvesters and targets with shared configurations, interleaved step by step and by preempted threads, against isolated runs."""

from __future__ import annotations

import gc
import random

from .. import sched, sim
from . import c12

RUNS = {"quick": 3500, "thorough": 50000}
RULE = (
    "2 to 5 instances (complete sources, converters and harvesters on shared PRU-configurations, targets) built from a small pool of shared configuration, calibration "
    "and target objects; seeded lives: create, step with an own seeded feed, a failing step (broken input, raising target), drop and collect, create the same again. "
    "Lives are interleaved by a seeded order in one thread, or run in threads that get preempted at seeded lines / byte-codes of the library. "
    "Each instance's outputs and internals have to equal those of a run alone in a fresh process; shared objects are compared before and after."
)
REAL = ["VirtualSourceModel, VirtualConverterModel, VirtualHarvesterModel, PruCalibration, target models", "VirtualSourceConfig / ConverterPRUConfig / HarvesterPRUConfig with fixtures", "real threads"]
STUB = ["thread scheduling (trace-hook baton, one thread at a time)", "time (one step = 10 us of simulated time)", "energy source (seeded)"]
SHRINK = ["lives.0.ops", "lives.1.ops", "lives.2.ops", "lives.3.ops", "lives.4.ops", "order", "pre"]
STATE_MEASURE = "hash of (kind of instance, kind of the one stepped before, same configuration?, same calibration?, operation)"
MUST_HIT = ["preempted", "shared_config", "shared_calibration", "shared_target", "failed_step", "recreated", "dropped", "residue", "source", "converter", "harvester", "target", "threads"]


def warm() -> None:
    sched.patch_locks()
    import shepherd_core.data_models  # noqa: F401
    from shepherd_core import vsource  # noqa: F401


def gen(rng, tier, i):
    threads = rng.random() < 0.4
    pool = []
    for _ in range(rng.randrange(1, 3)):
        s = c12.gen(rng, tier, i)
        s = {k: s[k] for k in ("cfg", "algo", "cal")}
        if rng.random() < 0.5:
            s["cal"] = {"off": rng.choice([-5e-6, -1e-4, -3e-6]), "gain": 1.0, "dac": 0}
        pool.append(s)
    lives = []
    kinds = ["target"] if rng.random() < 0.12 else ["source", "source", "source", "converter", "harvester", "target"]
    same = rng.randrange(4)
    for _ in range(rng.randrange(2, 4 if threads else 6)):
        hist = [[rng.choice(["steady", "ramp", "noise", "loss", "glitch", "sweep"]), rng.randrange(1, 20), rng.uniform(0, 6e6), c12.g(rng, 10, 1e8), rng.randrange(1 << 20)] for _ in range(rng.randrange(1, 4))]
        ops = [["new"]]
        for _ in range(rng.randrange(1, 10 if threads else 25)):
            ops.append(rng.choice([["step", rng.randrange(1, 6 if threads else 40)]] * 6 + [["boom", rng.choice(["none", "text", "target"])], ["drop"], ["again"]]))
        lives.append({"kind": rng.choice(kinds), "cfg": rng.randrange(len(pool)), "cal": rng.randrange(len(pool)), "iv": rng.random() < 0.4, "hist": hist,
                      "load": rng.choice(["r", "diode", "ci", "cp", "free", "mod", "own"]), "log": rng.random() < 0.2, "seed": rng.randrange(1 << 20), "ops": ops})
        if len(kinds) == 1:
            lives[-1]["seed"] = lives[-1]["seed"] // 4 * 4 + same
    return {"pool": pool, "lives": lives, "threads": threads, "order": [rng.randrange(5) for _ in range(rng.randrange(10, 120))],
            "pre": [[int(rng.choice([2, 10, 60, 400]) * rng.random()), rng.randrange(3)] for _ in range(rng.randrange(1, 60))], "opcodes": rng.random() < 0.4}


class Shared:
    """Objects that all instances may refer to."""

    def __init__(self, pool):
        from shepherd_core.data_models import EnergyDType
        from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
        from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
        from shepherd_core.vsource import target_model as tm

        self.cfg, self.cal, self.cnv, self.hrv = [], [], {}, {}
        for k, s in enumerate(pool):
            cfg, cal = c12.build(s)
            self.cfg.append(cfg)
            self.cal.append(cal)
            for iv in (False, True):
                dt = EnergyDType.ivcurve if iv else EnergyDType.ivsample
                self.cnv[k, iv] = ConverterPRUConfig.from_vsrc(cfg, dtype_in=dt, log_intermediate_node=False)
                self.hrv[k, iv] = HarvesterPRUConfig.from_vhrv(cfg.harvester, for_emu=True, dtype_in=dt, window_size=20 if iv else None, voltage_step_V=0.25 if iv else None)
        self.tgt = {"r": tm.ResistiveTarget(1000, controlled=True), "diode": tm.diode_target_burn, "ci": tm.mcu_msp430fr, "cp": tm.mcu_nrf52840, "mod": tm.mcu_msp_deep_sleep}

    def dump(self):
        d = [x.model_dump() for x in (*self.cfg, *self.cal, *self.cnv.values(), *self.hrv.values())]
        return repr(d) + repr([vars(t) for t in self.tgt.values()])


def own_target(seed):
    """Targets of an instance, of one kind but with different parameters."""
    from shepherd_core.vsource import target_model as tm

    x = 1 + seed // 4 % 3
    return [
        lambda: tm.ConstantPowerTarget(P_active_W=1e-3 * x, P_sleep_W=1e-6 * x), lambda: tm.ConstantCurrentTarget(I_active_A=1e-3 * x, I_sleep_A=1e-6 * x),
        lambda: tm.ResistiveTarget(500 * x, controlled=x != 2), lambda: tm.DiodeTarget(V_forward_V=1.0 + 0.3 * x, I_forward_A=10e-3, R_Ohm=100 * x, controlled=x != 2),
    ][seed % 4]()


class Boom(Exception):
    pass


def residue(m, name):
    """Carry-over of the current conversion, where it can be seen."""
    return getattr(getattr(m, name, None), "negative_residue_nA", None)


def life(spec, sh, out):
    """Generator: one operation or step per resumption; appends what could be observed to out."""
    from shepherd_core.data_models import EnergyDType
    from shepherd_core.vsource.virtual_converter_model import PruCalibration, VirtualConverterModel
    from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel
    from shepherd_core.vsource.virtual_source_model import VirtualSourceModel

    kind, c, iv = spec["kind"], spec["cfg"], spec["iv"]
    m = None
    for op, *a in spec["ops"]:
        if op in ("new", "again", "drop"):
            m = None
            if op != "drop":
                if kind == "source":
                    m = VirtualSourceModel(sh.cfg[c], sh.cal[spec["cal"]], EnergyDType.ivcurve if iv else EnergyDType.ivsample, window_size=20 if iv else None, voltage_step_V=0.25 if iv else None, log_intermediate=spec["log"])
                elif kind == "target":
                    m = own_target(spec["seed"])
                elif kind == "converter":
                    m = VirtualConverterModel(sh.cnv[c, iv], PruCalibration(sh.cal[spec["cal"]]))
                else:
                    m = VirtualHarvesterModel(sh.hrv[c, iv])
                src = c12.Harvest(spec["hist"], iv, 20)
                rng = random.Random(spec["seed"])
                i_out = 0
                own = own_target(spec["seed"])
            out.append(op)
            yield op
        elif m is not None:
            for _ in range(a[0] if op == "step" else 1):
                v, i = src.next()
                if op == "boom" and a[0] != "target":
                    v = None if a[0] == "none" else "1"
                try:
                    if kind == "source":
                        vo = m.iterate_sampling(v, i, i_out)
                        ld = spec["load"]
                        if op == "boom":
                            raise Boom
                        i_out = int(rng.random() * 1e6) if ld == "free" else (own if ld == "own" else sh.tgt[ld]).step(vo, pwr_good=m.cnv.get_power_good())
                        r = (vo, i_out, m.cnv.get_power_good(), m.cnv.V_mid_uV, m.cnv.P_inp_fW, m.cnv.P_out_fW, m.W_inp_fWs, m.W_out_fWs, m.hrv.voltage_set_uV, residue(m, "_cal_pru"))
                    elif kind == "target":
                        r = (m.step([0, 1_800_000, 2_400_000, 3_300_000, v][rng.randrange(5)], pwr_good=rng.random() < 0.5), *sorted(vars(m).items()))
                    elif kind == "converter":
                        p = m.calc_inp_power(v, i)
                        q = m.calc_out_power(rng.randrange(0, 3000))
                        r = (p, q, m.update_cap_storage(), m.update_states_and_output(), m.get_power_good(), m.V_mid_uV, residue(m, "_cal"))
                    else:
                        r = (*m.ivcurve_sample(v, i), m.voltage_set_uV)
                except (TypeError, ValueError, Boom) as e:
                    if op != "boom":
                        raise
                    r = ("raised", type(e).__name__)
                out.append(r)
                yield op


def alone(spec, pool):
    out = []
    sh = Shared(pool)
    for _ in life(spec, sh, out):
        pass
    return out


def run(sc, ctx):
    lives = sc["lives"]
    want = []
    for s in lives:
        res = sim.process(alone, s, sc["pool"])
        ctx.absorb(res)
        if res.status != "ok":
            raise RuntimeError(f"isolated run ended with {res}")
        want.append(res.value)
    sh = Shared(sc["pool"])
    before = sh.dump()
    outs = [[] for _ in lives]
    for a in range(len(lives)):
        for b in range(a):
            ctx.probe("shared_config", int(lives[a]["cfg"] == lives[b]["cfg"]))
            ctx.probe("shared_calibration", int(lives[a]["cal"] == lives[b]["cal"]))
            ctx.probe("shared_target", int(lives[a]["load"] == lives[b]["load"] and lives[a]["kind"] == lives[b]["kind"] == "source"))
    for s, w in zip(lives, want):
        ctx.probe(s["kind"])
        ctx.probe("residue", int(any(isinstance(r, tuple) and len(r) > 6 and r[-1] != 0 for r in w)))
        ctx.probe("failed_step", sum(isinstance(r, tuple) and str(r[0]) == "raised" for r in w))
        ctx.probe("recreated", w.count("again"))
        ctx.probe("dropped", w.count("drop"))
        ctx.fault("failing_step", sum(isinstance(r, tuple) and r[0] == "raised" for r in w))
    if sc["threads"]:
        ctx.probe("threads")

        def body(k):
            def f():
                for _ in life(lives[k], sh, outs[k]):
                    pass
            return f

        s = sched.Sched(sc["pre"], opcodes=sc["opcodes"])
        res = s.run({f"t{k}": body(k) for k in range(len(lives))})
        ctx.check(not s.deadlock, "deadlock", s.trace)
        ctx.probe("preempted", s.switches)
        ctx.fault("preemption", s.switches)
        ctx.ev(s.points, s.trace)
        for x in s.trace:
            ctx.state(x)
        for k, (st, *rest) in res.items():
            ctx.check(st == "ok", "fails-beside-others", lambda: f"{k}: {rest[-1]}")
        ctx.steps += s.points
    else:
        gens = [life(s, sh, o) for s, o in zip(lives, outs)]
        live = list(range(len(lives)))
        order = sc["order"] or [0]
        n = prev = 0
        while live:
            k = live[order[n % len(order)] % len(live)]
            n += 1
            try:
                op = next(gens[k])
            except StopIteration:
                live.remove(k)
                continue
            except Exception as e:
                ctx.check(False, "fails-beside-others", f"life {k} ({lives[k]['kind']}): {type(e).__name__}: {e}")
            if op == "drop" and n % 4 == 0:
                gc.collect()
            ctx.state(lives[k]["kind"], lives[prev]["kind"], lives[k]["cfg"] == lives[prev]["cfg"], lives[k]["cal"] == lives[prev]["cal"], op)
            prev = k
        ctx.steps += n
        ctx.simtime(n * 10_000)
    for k, (o, w) in enumerate(zip(outs, want)):
        if o != w:
            d = next((j for j, (x, y) in enumerate(zip(o, w)) if x != y), min(len(o), len(w)))
            ctx.check(False, "influenced-by-others", f"life {k} ({lives[k]['kind']}), observation {d}: {o[d:d + 1]} instead of {w[d:d + 1]}")
        # created again with the same feed: the same outputs again
        parts, cur = [], None
        for r in o:
            if isinstance(r, str):
                cur = [] if r != "drop" else None
                if cur is not None:
                    parts.append(cur)
            elif cur is not None:
                cur.append(r)
        if not any(op[0] == "boom" for op in lives[k]["ops"]):
            for p in parts[1:]:
                m = min(len(p), len(parts[0]))
                ctx.check(p[:m] == parts[0][:m], "not-repeatable", lambda: f"life {k} ({lives[k]['kind']})")
    after = sh.dump()
    if after != before:
        d = next(j for j, (x, y) in enumerate(zip(after, before)) if x != y)
        ctx.check(False, "shared-object-changed", f"... {before[max(0, d - 60):d + 40]} -> {after[max(0, d - 60):d + 40]}")
    ctx.ev(sc["threads"], [len(o) for o in outs], sum(len(repr(o)) for o in outs))


def simplify(sc):
    import copy

    if sc["threads"]:
        yield {**copy.deepcopy(sc), "opcodes": False}
    for k in range(len(sc["lives"])):
        if len(sc["lives"]) > 1:
            s = copy.deepcopy(sc)
            del s["lives"][k]
            yield s
        if sc["lives"][k]["log"] or sc["lives"][k]["iv"]:
            s = copy.deepcopy(sc)
            s["lives"][k]["log"] = s["lives"][k]["iv"] = False
            yield s
