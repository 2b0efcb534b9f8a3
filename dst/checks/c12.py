"""C12: virtual sources in closed loop with seeded harvest histories and loads, every step refereed against the configuration."""

from __future__ import annotations

import math
import random

RUNS = {"quick": 2600, "thorough": 30000}
RULE = (
    "seeded source configurations (database sources with overrides and fully random ones; buffer / boost / buck / feedback / direct, thresholds, "
    "check intervals, start-up drain, efficiency tables, calibrations with offsets) driven for 300..6000 steps of 10 us by a seeded harvest history "
    "(steady, ramps, noise, loss, negative glitches, overload, iv-curve sweeps) and loads (all target models in closed loop, free currents, bursts, "
    "over-currents). After each step voltage, powers, output and power-good are compared with an independent balance computed from the "
    "configuration in SI units."
)
REAL = ["VirtualSourceModel, VirtualConverterModel, VirtualHarvesterModel, PruCalibration, ConverterPRUConfig", "target models", "VirtualSourceConfig with fixtures"]
STUB = ["time (one step = 10 us of simulated time)", "energy source and load noise (seeded)"]
SHRINK = ["hist", "load"]
STATE_MEASURE = "hash of (topology, output on, power good, drain, input class, load class, at limit?)"
MUST_HIT = ["target_active", "target_asleep", "switched_on", "switched_off", "pwr_good_on", "pwr_good_off", "regulated", "below_regulation", "at_max", "at_min", "input_lost", "overload", "feedback", "interval_check", "startup_drain", "residue", "cp_target_unpowered", "input_below_storage"]


def warm() -> None:
    import shepherd_core.data_models  # noqa: F401
    from shepherd_core import vsource  # noqa: F401


def g(rng, lo, hi):
    """Log-uniform with the ends included now and then."""
    r = rng.random()
    if r < 0.05:
        return lo
    if r < 0.1:
        return hi
    return math.exp(rng.uniform(math.log(max(lo, 1e-6)), math.log(hi)))


def gen(rng, tier, i):
    r = rng.random()
    if r < 0.25:
        cfg = {"name": rng.choice(["BQ25504", "BQ25570", "diode", "diode+capacitor", "diode+resistor+capacitor", "neutral", "BQ25504s", "BQ25570s", "direct"])}
        for k, v in (("V_intermediate_init_mV", rng.uniform(0, 5000)), ("C_intermediate_uF", g(rng, 0.1, 1000)), ("C_output_uF", g(rng, 0.01, 10)), ("interval_startup_delay_drain_ms", rng.choice([0, 1.0, 5.0])), ("enable_feedback_to_hrv", rng.random() < 0.3)):
            if rng.random() < 0.35:
                cfg[k] = v
    else:
        vmid = rng.choice([rng.uniform(500, 5000), rng.uniform(0, 10_000)])
        cfg = {
            "name": "custom", "inherit_from": "neutral",
            "enable_boost": rng.random() < 0.5, "enable_buck": rng.random() < 0.5, "enable_feedback_to_hrv": rng.random() < 0.4,
            "interval_startup_delay_drain_ms": rng.choice([0, 0, 0.01, 2.5, rng.uniform(0, 20)]),
            "V_input_max_mV": rng.choice([10_000, 3000, rng.uniform(0, 10_000)]), "I_input_max_mA": rng.choice([4200, 10, rng.uniform(0, 100)]),
            "V_input_drop_mV": rng.choice([0, 0, 300, rng.uniform(0, 2000)]), "R_input_mOhm": rng.choice([0, 1000, 10_000, g(rng, 1, 4e6)]),
            "C_intermediate_uF": rng.choice([0, g(rng, 0.05, 50), g(rng, 0.05, 50), g(rng, 1e-5, 1e5)]), "V_intermediate_init_mV": vmid,
            "I_intermediate_leak_nA": rng.choice([0, 0, 10, 1e5, g(rng, 1, 4e9)]),
            "V_intermediate_enable_threshold_mV": rng.choice([1, vmid + rng.uniform(-500, 500), rng.uniform(0, 5000)]),
            "V_intermediate_disable_threshold_mV": rng.choice([0, vmid + rng.uniform(-1500, 0), rng.uniform(0, 5000)]),
            "interval_check_thresholds_ms": rng.choice([0, 0, 0.01, 0.05, 1, 6.4, rng.uniform(0, 10)]),
            "V_pwr_good_enable_threshold_mV": vmid + rng.uniform(-500, 500), "V_pwr_good_disable_threshold_mV": vmid + rng.uniform(-1000, 100),
            "immediate_pwr_good_signal": rng.random() < 0.5, "C_output_uF": rng.choice([0, 1.0, g(rng, 1e-4, 10)]), "V_output_log_gpio_threshold_mV": rng.uniform(0, 3000),
            "V_input_boost_threshold_mV": rng.choice([0, 130, rng.uniform(0, 1500)]), "V_intermediate_max_mV": rng.choice([10_000, vmid + rng.uniform(0, 1000), rng.uniform(0, 10_000)]),
            "V_output_mV": rng.choice([0, 1800, 2400, 3300, rng.uniform(0, 5000)]), "V_buck_drop_mV": rng.choice([0, 0, 100, rng.uniform(0, 1500)]),
            "LUT_input_V_min_log2_uV": rng.randrange(21), "LUT_input_I_min_log2_nA": rng.randrange(1, 21), "LUT_output_I_min_log2_nA": rng.randrange(1, 21),
            "lut": rng.choice([None, rng.randrange(1 << 30)]),
        }
        for k, v in cfg.items():
            if k.endswith("_mV") and isinstance(v, float):
                cfg[k] = min(max(0.0, v), 5000.0 if k in ("V_output_mV", "V_buck_drop_mV") else 10_000.0)
    hist = []
    for _ in range(rng.randrange(1, 9)):
        hist.append([rng.choice(["steady", "steady", "ramp", "noise", "loss", "glitch", "overload", "sweep"]), rng.randrange(1, rng.choice([5, 100, 900])), rng.uniform(0, 6e6), g(rng, 1, 1e8), rng.randrange(1 << 20)])
    load = []
    for _ in range(rng.randrange(1, 7)):
        load.append([rng.choice(["r", "diode", "ci", "cp", "cp", "free", "burst", "none", "over", "neg"]), rng.randrange(1, rng.choice([5, 100, 900])), g(rng, 1e-6, 1), rng.random() < 0.5, rng.randrange(1 << 20)])
    return {"cfg": cfg, "ivcurve": rng.random() < 0.35, "win": rng.choice([20, 50]), "algo": rng.choice(["mppt_opt", "cv20", "mppt_voc", "mppt_po"]), "log_mid": rng.random() < 0.2, "hist": hist, "load": load, "steps": rng.choice([300, 1200, 1200, 4000]),
            "cal": rng.choice([None, None, {"off": rng.choice([0, -5e-6, -1e-4, 3e-6]), "gain": rng.choice([1.0, 3.7]), "dac": rng.choice([0, 0.002, -0.002])}])}


def build(sc):
    from shepherd_core.data_models import VirtualHarvesterConfig, VirtualSourceConfig
    from shepherd_core.data_models.base.calibration import CalibrationEmulator, CalibrationPair

    c = dict(sc["cfg"])
    lut = c.pop("lut", None)
    if lut is not None:
        r = random.Random(lut)
        c["LUT_input_efficiency"] = [[r.choice([r.random(), 1.0, 0.0, 0.5]) for _ in range(12)] for _ in range(12)]
        c["LUT_output_efficiency"] = [r.choice([r.random(), 1.0, 0.0, 0.9]) for _ in range(12)]
    c["harvester"] = VirtualHarvesterConfig(name=sc["algo"])
    cfg = VirtualSourceConfig(**c)
    cal = CalibrationEmulator()
    if sc["cal"]:
        a, d = cal.adc_C_A, cal.dac_V_A
        cal = CalibrationEmulator(adc_C_A=CalibrationPair(gain=a.gain * sc["cal"]["gain"], offset=sc["cal"]["off"]), dac_V_A=CalibrationPair(gain=d.gain, offset=sc["cal"]["dac"]))
    return cfg, cal


class Harvest:
    """What the energy source delivers, step by step."""

    def __init__(self, hist, ivcurve, win):
        self.hist, self.k, self.n, self.iv, self.win = hist, 0, 0, ivcurve, win
        self.rng = random.Random(hist[0][4] if hist else 0)
        self.t = 0
        self.kind = ""

    def next(self):
        if not self.hist:
            return 0, 0
        kind, n, v, i, s = self.hist[self.k % len(self.hist)]
        if self.n >= n:
            self.n, self.k = 0, self.k + 1
            kind, n, v, i, s = self.hist[self.k % len(self.hist)]
            self.rng = random.Random(s)
        f = self.n / n
        self.n += 1
        self.t += 1
        self.kind = kind
        if kind == "ramp":
            v *= f
        elif kind == "noise":
            v, i = v + self.rng.gauss(0, 3e5), i * (1 + self.rng.gauss(0, 0.5)) + self.rng.gauss(0, 50)
        elif kind == "loss":
            v = i = 0
        elif kind == "glitch":
            v, i = self.rng.choice([(v, -i), (-v, i), (0, i), (v, 0), (v, i)])
        elif kind == "overload":
            v, i = v * 3 + 1e7, i * 100 + 5e9
        if self.iv:  # a solar cell that is swept all the time
            x = (self.t % self.win) / self.win
            return int(5e6 * x), int(i * max(0.0, 1 - (5e6 * x / max(v, 1)) ** 8))
        return int(v), int(i)


def drawn(kind, x, ctrl, s, v_uV, good) -> float:
    """Current of a target [nA], from its physics."""
    if kind == "ci":
        return 1e9 * (x / 10 if good else x / 1000)
    if v_uV <= 0:
        return 0.0
    if kind == "cp":
        return (x / 10 if good else x / 1e4 if ctrl else 0) / v_uV * 1e15
    if ctrl and not good:
        return 0.0
    v = v_uV * 1e-6
    if kind == "r":
        return v / (1 / x + 1) * 1e9
    # series of resistor and diode (Shockley, ideality 2, junction at 100 degree): find the current where the voltages add up
    r, vf = 1 + 0.1 / x, 0.3 + 3 * ((s % 97) / 97)
    c1 = 2 * 1.380649e-23 * 373.15 / 1.6021766e-19
    i_s = 20e-3 / math.expm1(vf / c1)
    lo, hi = 0.0, v / r
    for _ in range(100):
        m = (lo + hi) / 2
        if m * r + c1 * math.log1p(m / i_s) < v:
            lo = m
        else:
            hi = m
    return lo * 1e9


class Load:
    """What the target node draws [nA]."""

    def __init__(self, load):
        self.load, self.k, self.n, self.tgt = load, 0, 0, None
        self.rng = random.Random(load[0][4] if load else 0)
        self.kind = "none"

    def next(self, v_uV, good, ctx):
        from shepherd_core.vsource.target_model import ConstantCurrentTarget, ConstantPowerTarget, DiodeTarget, ResistiveTarget

        if not self.load:
            return 0
        if self.n >= self.load[self.k % len(self.load)][1]:
            self.n, self.k, self.tgt = 0, self.k + 1, None
        kind, n, x, ctrl, s = self.load[self.k % len(self.load)]
        self.n += 1
        self.kind = kind
        if self.tgt is None:
            self.rng = random.Random(s)
            self.tgt = {
                "r": lambda: ResistiveTarget(R_Ohm=1 / x + 1, controlled=ctrl), "diode": lambda: DiodeTarget(V_forward_V=0.3 + 3 * ((s % 97) / 97), I_forward_A=20e-3, R_Ohm=1 + 0.1 / x, controlled=ctrl),
                "ci": lambda: ConstantCurrentTarget(I_active_A=x / 10, I_sleep_A=x / 1000), "cp": lambda: ConstantPowerTarget(P_active_W=x / 10, P_sleep_W=x / 1e4 if ctrl else 0),
            }.get(kind, lambda: "free")()
        if self.tgt != "free":
            if kind == "cp" and v_uV == 0:
                ctx.probe("cp_target_unpowered")
            i = self.tgt.step(int(v_uV), pwr_good=good)
            ctx.check(isinstance(i, (int, float)) and math.isfinite(i) and i >= 0, "target-current", f"{kind} target draws {i} nA at {v_uV} uV")
            if v_uV == 0:
                ctx.check(kind == "ci" or i == 0, "current-without-voltage", f"{kind} target draws {i} nA at 0 V")
            want = drawn(kind, x, ctrl, s, int(v_uV), good)
            ctx.check(abs(i - want) <= 1e-3 * want + 1e-3, "wrong-target-current", lambda: f"{kind} target draws {i} instead of {want} nA at {v_uV} uV, power-good {good}, parameters {x, ctrl, s}")
            ctx.probe("target_active" if good else "target_asleep", int(v_uV > 0))
            return i
        return {"none": 0, "free": x * 1e8 * self.rng.random(), "burst": x * 1e8 * (self.rng.random() < 0.1), "over": 1e10, "neg": -x * 1e6}.get(kind, 0)


def run(sc, ctx):
    from shepherd_core.vsource import VirtualSourceModel

    cfg, cal = build(sc)
    kw = {"dtype_in": "ivcurve", "window_size": sc["win"], "voltage_step_V": 5.0 / sc["win"]} if sc["ivcurve"] else {}
    if sc["ivcurve"]:
        from shepherd_core.data_models import EnergyDType

        kw["dtype_in"] = EnergyDType.ivcurve
    src = VirtualSourceModel(cfg, cal, log_intermediate=sc["log_mid"], **kw)
    cnv = src.cnv
    seen = []
    inner = cnv.calc_inp_power
    cnv.calc_inp_power = lambda v, i: (seen.append((v, i)), inner(v, i))[1]

    # configuration in the units of a step, quantised as the recorder does
    uV = lambda x: round(x * 1e3)  # noqa: E731
    store = cfg.C_intermediate_uF > 0
    boost = cfg.enable_boost and store
    buck = cfg.enable_buck
    feedback = cfg.enable_feedback_to_hrv and store and not boost and sc["ivcurve"]
    k_exact = 0.01 / max(cfg.C_intermediate_uF, 0.001)  # uV per nA and step
    k_tol = 2.0 ** -28 / k_exact + 1e-9
    v_max, v_out_set, v_drop = uV(cfg.V_intermediate_max_mV), uV(cfg.V_output_mV), uV(cfg.V_buck_drop_mV)
    # thresholds from their documentation
    ratio = cfg.C_output_uF / cfg.C_intermediate_uF if store and cfg.C_output_uF > 0 else 0
    ven, vdis, vo = cfg.V_intermediate_enable_threshold_mV, cfg.V_intermediate_disable_threshold_mV, cfg.V_output_mV
    rad = ven ** 2 - ratio * vo ** 2
    dv_hi = ven - math.sqrt(rad) if ratio and rad >= 0 else 0.0
    dv_lo = vo * (1 - math.sqrt(1 - ratio)) if ratio and ratio <= 1 else 0.0
    if buck:
        pre = vo + cfg.V_buck_drop_mV
        dv, ven = (dv_hi, ven) if ven > pre else (dv_lo, pre + dv_lo)
        vdis = max(vdis, pre)
    else:
        dv = dv_hi
    dv, ven, vdis = dv * 1e3, max(ven, dv) * 1e3, vdis * 1e3
    n_check = max(1, round(cfg.interval_check_thresholds_ms * 100))
    drain = round(cfg.interval_startup_delay_drain_ms * 100)
    topo = ("boost" if boost else "cap" if store else "direct") + ("+buck" if buck else "") + ("+fb" if feedback else "")
    ctx.probe("feedback", int(feedback))
    ctx.probe("interval_check", int(n_check > 1))
    ctx.probe("startup_drain", int(drain > 0))
    eff_in_lo, eff_in_hi = min(map(min, cfg.LUT_input_efficiency)), max(map(max, cfg.LUT_input_efficiency))

    harv, load = Harvest(sc["hist"], sc["ivcurve"], sc["win"]), Load(sc["load"])
    v_mid = float(uV(cfg.V_intermediate_init_mV))
    v_dac, on, good = float(v_out_set), False, True
    residue = 0.0
    w_in = w_out = 0
    ret = 0
    digest = []
    for k in range(sc["steps"]):
        vi, ii = harv.next()
        io = load.next(0 if sc["log_mid"] and v_dac == 0 else (max(0, ret) if not sc["log_mid"] else int(v_dac)), cnv.get_power_good(), ctx)
        ret = src.iterate_sampling(vi, ii, io)
        where = lambda: f"step {k}, {topo}, input {seen[-1]}, load {io:.6g} nA ({load.kind}), storage before {v_mid} uV, on={on}, good={good}"  # noqa: E731
        # --- accepted input
        vh, ih = seen[-1]
        v_acc = min(max(0.0, max(0.0, vh) - uV(cfg.V_input_drop_mV)), uV(cfg.V_input_max_mV))
        i_acc = min(max(0.0, ih), round(cfg.I_input_max_mA * 1e6))
        ctx.check(0 <= cnv.V_input_uV <= uV(cfg.V_input_max_mV) + 1 and abs(cnv.V_input_uV - v_acc) < 1, "accepted-input-voltage", lambda: f"{cnv.V_input_uV} uV instead of {v_acc}; {where()}")
        p_lo = p_hi = 0.0
        if boost:
            if v_acc >= uV(cfg.V_input_boost_threshold_mV):
                pv = min(11, int(v_acc / 2 ** cfg.LUT_input_V_min_log2_uV))
                pc = min(11, max(0, int(i_acc / 2 ** (cfg.LUT_input_I_min_log2_nA - 1)).bit_length() - 1))
                eta = cfg.LUT_input_efficiency[pv][pc]
                p_lo, p_hi = (min(max(eta + d / 256, 0), 1) * v_acc * i_acc for d in (-1.001, 0.501))
                p_hi = min(p_hi, (eff_in_hi + 0.002) * v_acc * i_acc)
        elif store:
            r_drop = i_acc * cfg.R_input_mOhm * 1e-6
            if feedback:
                ve = v_mid if r_drop > max(0.0, v_acc - v_mid) else v_acc - r_drop
            elif v_acc < v_mid:
                ve = 0.0
                ctx.probe("input_below_storage", int(v_acc > 0 and i_acc > 0))
            else:
                ve = max(v_mid, v_acc - r_drop)
            q = i_acc * i_acc * 2 ** -22  # the resistance is stored in steps
            p_lo, p_hi = ve * i_acc - q, ve * i_acc + q
            if ve == 0:
                p_lo = p_hi = 0.0
        p_in = cnv.get_P_input_fW()
        ctx.check(p_lo * (1 - 1e-9) - 2 <= p_in <= p_hi * (1 + 1e-9) + 2, "input-power", lambda: f"{p_in} fW, expected {p_lo:.9g} .. {p_hi:.9g}; {where()}")
        if not store:
            v_mid = v_acc
        # --- drawn output
        raw = min(max(0, round(max(0.0, (io * 1e-9 - cal.adc_C_A.offset) / cal.adc_C_A.gain))), 2 ** 18 - 1)
        i_dr = (raw * cal.adc_C_A.gain + cal.adc_C_A.offset) * 1e9
        if cal.adc_C_A.offset < 0:  # readings below zero are settled with later ones
            ctx.probe("residue")
            if i_dr > residue:
                i_dr, residue = i_dr - residue, 0.0
            else:
                i_dr, residue = 0.0, min(residue - i_dr, 60_000)
        inv_lo = inv_hi = 1.0
        if buck:
            pc = min(11, max(0, int(i_dr / 2 ** (cfg.LUT_output_I_min_log2_nA - 1)).bit_length() - 1))
            eta = cfg.LUT_output_efficiency[pc]
            inv = 1 / eta if eta > 0 else 1024
            inv_lo, inv_hi = (min(1024, max(1, inv + d / 16)) for d in (-0.501, 0.501))
        leak = v_mid * round(cfg.I_intermediate_leak_nA)
        o_lo, o_hi = inv_lo * v_dac * i_dr + leak, inv_hi * v_dac * i_dr + leak
        if drain > 0:
            drain -= 1
            o_lo = o_hi = 0.0
        p_out = cnv.get_P_output_fW()
        ctx.check(o_lo * (1 - 1e-9) - 2 <= p_out <= o_hi * (1 + 1e-9) + 2, "output-power", lambda: f"{p_out} fW, expected {o_lo:.9g} .. {o_hi:.9g} (output {v_dac} uV, drawn {i_dr} nA); {where()}")
        w_in += p_in
        w_out += p_out
        # --- storage: balance of both, inside its limits
        exp = v_mid
        tol = 1.0
        if store:
            dvs = (p_in - p_out) / max(1.0, v_mid) * k_exact
            exp += dvs
            tol += abs(dvs) * k_tol + k_exact / max(1.0, v_mid) * 2
        lim_hi = exp > v_max
        exp = max(min(exp, v_max), 1.0)
        # --- switching
        check = k % n_check == 0
        now = cnv.V_mid_uV + (0.0 if on or not cnv.is_outputting else dv)  # storage at the time of the check
        if abs(now - exp) > tol:
            ctx.check(False, "storage-balance", f"{now:.3f} uV, expected {exp:.3f} (+-{tol:.3g}), P_in {p_in}, P_out {p_out}, C {cfg.C_intermediate_uF} uF, limit {v_max}; {where()}")
        was_on, was_good = on, good
        near = 2.0
        if check:
            if on:
                if now < vdis - near:
                    on = False
                elif now < vdis + near:
                    on = cnv.is_outputting
            elif now >= ven + near:
                on = True
            elif now >= ven - near:
                on = cnv.is_outputting
        ctx.check(cnv.is_outputting == on, "output-switched", lambda: f"output is {cnv.is_outputting} with {now} uV (on at {ven}, off below {vdis}, checked now: {check}); {where()}")
        lo_pg, hi_pg = uV(cfg.V_pwr_good_disable_threshold_mV), uV(cfg.V_pwr_good_enable_threshold_mV)
        if check or cfg.immediate_pwr_good_signal:
            if good:
                if now <= lo_pg - near:
                    good = False
                elif now <= lo_pg + near:
                    good = cnv.get_power_good()
            elif now >= hi_pg + near:
                good = on
            elif now >= hi_pg - near:
                good = cnv.get_power_good()
        ctx.check(cnv.get_power_good() == good, "power-good", lambda: f"power-good is {cnv.get_power_good()} with {now} uV (set at {hi_pg} while on={on}, cleared at {lo_pg}); {where()}")
        v_prev = v_mid
        v_mid = float(cnv.V_mid_uV)
        ctx.check(0 <= v_mid <= max(v_max, 1) + 1e-6, "storage-limits", lambda: f"{v_mid} uV outside 0 .. {v_max}; {where()}")
        # --- delivered voltage
        if on or drain > 0:
            if buck and v_mid > v_out_set + v_drop:
                v_exp = float(v_out_set)
                ctx.probe("regulated", int(k < 50))
            else:
                v_exp = max(0.0, v_mid - v_drop)
                ctx.probe("below_regulation", int(k < 50))
        else:
            v_exp = 0.0
        v_dac = float(cnv.V_out_dac_uV)
        ctx.check(abs(v_dac - v_exp) <= 1, "output-voltage", lambda: f"{v_dac} uV instead of {v_exp} (storage {v_mid}, on={on}, drain={drain}); {where()}")
        if not on and drain <= 0:
            ctx.check(cnv.V_out_dac_raw == 0, "output-voltage-while-off", lambda: f"raw {cnv.V_out_dac_raw}; {where()}")
        rawd = min(max(0, round((v_dac / 1e6 - cal.dac_V_A.offset) / cal.dac_V_A.gain)), 65535) if v_exp > 0 or on or drain > 0 else 0
        ctx.check(abs(cnv.V_out_dac_raw - rawd) <= 1, "dac-value", lambda: f"{cnv.V_out_dac_raw} instead of {rawd} for {v_dac} uV")
        want = v_mid if sc["log_mid"] else (rawd * cal.dac_V_A.gain + cal.dac_V_A.offset) * 1e6
        # the logged storage voltage is the one before the output capacitor takes its share
        ctx.check(abs(ret - want) <= 2 + (cal.dac_V_A.gain * 1e6 if not sc["log_mid"] else (dv if on and not was_on else 0)), "returned-voltage", lambda: f"{ret} instead of {want}; {where()}")
        ctx.check(cnv.get_state_log_gpio() == (v_dac < uV(cfg.V_output_log_gpio_threshold_mV)), "gpio-log-switch", lambda: f"{cnv.get_state_log_gpio()} at {v_dac} uV")
        ctx.check(abs(src.W_inp_fWs - w_in) <= 1e-9 * w_in and abs(src.W_out_fWs - w_out) <= 1e-9 * w_out, "energy-sums", lambda: f"{src.W_inp_fWs} / {src.W_out_fWs} instead of {w_in} / {w_out}; {where()}")
        if feedback:
            ctx.check(abs(cnv.V_input_request_uV - (v_prev + r_drop + uV(cfg.V_input_drop_mV))) <= 2 + r_drop * 1e-3 + i_acc * 2 ** -22, "feedback-request", lambda: f"{cnv.V_input_request_uV}; {where()}")
        i_mid = cnv.get_I_mid_out_nA()
        ctx.check(math.isfinite(i_mid), "current-not-finite", i_mid)
        ctx.probe("switched_on", int(on and not was_on))
        ctx.probe("switched_off", int(was_on and not on))
        ctx.probe("pwr_good_on", int(good and not was_good))
        ctx.probe("pwr_good_off", int(was_good and not good))
        ctx.probe("at_max", int(lim_hi and k < 100))
        ctx.probe("at_min", int(v_mid <= 1 and k < 100))
        if harv.n == 1:
            ctx.fault({"loss": "input_lost", "glitch": "input_glitch", "overload": "input_overload", "noise": "input_noise"}.get(harv.kind, "input_change"))
            ctx.probe("input_lost", int(harv.kind == "loss"))
        if load.n == 1 and load.kind in ("over", "neg"):
            ctx.fault("output_" + load.kind)
            ctx.probe("overload", int(load.kind == "over"))
        if on != was_on or good != was_good or k % 97 == 0:
            digest.append((k, on, good, round(v_mid)))
            ctx.state(topo, on, good, drain > 0, harv.kind, load.kind, lim_hi, v_mid <= 1)
    ctx.simtime(sc["steps"] * 10_000)
    ctx.steps += sc["steps"]
    ctx.ev(topo, len(digest), digest[-1] if digest else "", w_in, w_out)


def simplify(sc):
    import copy

    for k in (1, 2, 10, 50, 300):
        if sc["steps"] > k:
            yield {**copy.deepcopy(sc), "steps": k}
    for k, v in (("ivcurve", False), ("log_mid", False), ("cal", None)):
        if sc[k] != v:
            yield {**copy.deepcopy(sc), k: v}
    for k in list(sc["cfg"]):
        if k not in ("name", "inherit_from"):
            s = copy.deepcopy(sc)
            del s["cfg"][k]
            yield s
