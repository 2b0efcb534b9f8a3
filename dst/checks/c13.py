"""C13: virtual harvesters on seeded streams of IV-curves with source changes, dropouts and corrupted windows."""

from __future__ import annotations

import math
import random

RUNS = {"quick": 15000, "thorough": 60000}
RULE = (
    "seeded harvester configurations (optimal, open-circuit, perturb & observe, constant voltage; limits, set-points, intervals, extrapolation on / off, "
    "window and step of the recorder) fed with streams of swept IV-curves: source changes (brightness, open-circuit voltage, shape, knee shift), dropouts, "
    "frozen and random windows, lost and doubled samples, values beyond the limits, both sweep directions, dwell samples; a steady end phase. Every returned "
    "pair is checked against the history of the stream, set-points against limits and interval grid, and the end phase against the curve."
)
REAL = ["VirtualHarvesterModel, HarvesterPRUConfig, VirtualHarvesterConfig with fixtures"]
STUB = ["time (one sample = 10 us of simulated time)", "the energy source (seeded curves and faults)"]
SHRINK = ["wins"]
STATE_MEASURE = "hash of (algorithm, kind of window, extrapolation, set-point at limit?, pair repeated?, power zero?)"
MUST_HIT = ["opt", "voc", "po", "cv", "converged_opt", "converged_voc", "converged_cv", "voc_floor", "setpoint_moved", "po_onwards", "po_turned", "out_of_limits", "tie", "corrupted", "dropout", "phase_shift"]

KINDS = ["curve", "curve", "curve", "curve", "dark", "random", "frozen", "spike", "lost", "double", "reverse"]


def warm() -> None:
    import shepherd_core.data_models  # noqa: F401
    from shepherd_core import vsource  # noqa: F401


def gen(rng, tier, i):
    n = rng.choice([8, 10, 16, 33, 100])
    dwell = rng.choice([1, 1, 2, 3])
    vmax = rng.choice([5000, 5000, rng.uniform(300, 5000)])
    vmin = rng.choice([0, 0, rng.uniform(0, vmax * 0.8)])
    vmin = min(vmin, vmax - 1.2 * max(8, n))  # the config refuses steps below 1 mV
    v = rng.choice([vmin, vmax, rng.uniform(vmin, vmax)])
    win = n * dwell
    wins = []
    cur = [rng.uniform(0.2, 5.0), math.exp(rng.uniform(math.log(1e3), math.log(5e7))), rng.choice([1.5, 4, 12])]
    for _ in range(rng.randrange(0, rng.choice([3, 10, 25]))):
        if rng.random() < 0.4:
            cur = [cur[0] * rng.choice([1, 0.5, 1.3]) + rng.uniform(-0.3, 0.3), cur[1] * rng.choice([1, 0.1, 0.7, 2]), rng.choice([1.5, 4, 12])]
        wins.append([rng.choice(KINDS), *[round(x, 6) for x in cur], rng.randrange(1 << 20)])
    interval = rng.choice([0.01, win / 100, win / 30, win / 12, rng.uniform(0.1, 8)])
    return {
        "algo": rng.choice(["mppt_opt", "mppt_voc", "mppt_po", "cv"]), "n": n, "dwell": dwell, "vmax": vmax, "vmin": vmin, "v": v, "extra": rng.random() < 0.35,
        "limit": rng.choice([1, 5, 100, 50_000]), "setp": rng.choice([0, 0.5, 0.76, 0.9, 1.0]), "int": interval, "dur": max(0.01, rng.choice([0.01, interval / 4, interval])), "rising": rng.random() < 0.5,
        "vtop": rng.choice([5.0, 3.0, vmax / 1000 * 0.9]), "vlow": rng.choice([0.0, 0.0, 0.4]), "down": rng.random() < 0.5, "wins": wins, "end": [round(x, 6) for x in cur], "endkind": rng.choice(["curve", "curve", "curve", "dark"]),
        "tie": rng.random() < 0.2, "pos": rng.random(),
    }


def run(sc, ctx):
    from shepherd_core.data_models import EnergyDType, VirtualHarvesterConfig
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel

    n, dwell = sc["n"], sc["dwell"]
    win = n * dwell
    lo, hi = sc["vlow"] * 1e6, max(sc["vtop"], sc["vlow"] + 0.1) * 1e6
    grid = [round(lo + (hi - lo) * k / (n - 1)) for k in range(n)]
    step = grid[1] - grid[0]
    vset = sc["v"]
    if sc["tie"]:  # set-point exactly between two points of the sweep (the harvester aims at 1 uV above its setting)
        k = int(sc["pos"] * (n - 2))
        grid = [grid[0] // 2 * 2 + 2 * (step // 2) * j for j in range(n)]
        step = grid[1] - grid[0]
        vset = ((grid[k] + grid[k + 1]) // 2 - 1) / 1000
        if not sc["vmin"] <= vset <= sc["vmax"]:
            vset = sc["v"]
    cfg = VirtualHarvesterConfig(
        name="hrv", inherit_from={"mppt_opt": "mppt_opt", "mppt_voc": "mppt_voc", "mppt_po": "mppt_po", "cv": "cv20"}[sc["algo"]], voltage_mV=vset, voltage_min_mV=sc["vmin"], voltage_max_mV=sc["vmax"],
        current_limit_uA=sc["limit"], setpoint_n=sc["setp"], interval_ms=sc["int"], duration_ms=sc["dur"], rising=sc["rising"], enable_linear_extrapolation=sc["extra"], samples_n=max(8, n), wait_cycles=dwell - 1)
    pru = HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in=EnergyDType.ivcurve, window_size=win, voltage_step_V=step / 1e6)
    hrv = VirtualHarvesterModel(pru)
    vmin, vmax = round(sc["vmin"] * 1e3), round(sc["vmax"] * 1e3)
    ctx.check(cfg.algorithm == sc["algo"], "config", cfg.algorithm)
    limit = round(cfg.current_limit_uA * 1e3)
    itv = max(1, round(max(cfg.interval_ms, max(8, n) * dwell / 100) * 100))
    dur = round(min(max(cfg.duration_ms, max(8, n) * dwell / 100), itv / 100) * 100)
    algo = sc["algo"].replace("mppt_", "")
    ctx.probe(algo)

    def curve(voc, isc, sh, v):
        return int(max(0.0, isc * (1 - (v / (max(voc, 0.05) * 1e6)) ** sh)))

    def window(kind, voc, isc, sh, seed, last):
        r = random.Random(seed)
        out = [(v, curve(voc, isc, sh, v)) for v in (grid[::-1] if sc["down"] != (kind == "reverse") else grid) for _ in range(dwell)]
        if kind == "dark":
            out = [(0, 0) if seed % 2 else (v, 0) for v, _ in out]
        elif kind == "random":
            out = [(r.randrange(0, 8_000_000), r.randrange(0, 60_000_000)) for _ in out]
        elif kind == "frozen":
            out = [last] * len(out)
        elif kind == "spike":
            for _ in range(r.randrange(1, 4)):
                k = r.randrange(len(out))
                out[k] = r.choice([(out[k][0], 2 ** 31), (2 ** 32 - 1, out[k][1]), (0, out[k][1]), (out[k][0], 0), (r.randrange(8_000_000), r.randrange(10 ** 9))])
        elif kind == "lost":
            k = r.randrange(len(out))
            del out[k : k + r.randrange(1, max(2, len(out) // 2))]
        elif kind == "double":
            k = r.randrange(len(out))
            out[k:k] = out[k : k + r.randrange(1, max(2, len(out) // 2))]
        return out

    stream = []  # (v, i, kind)
    last = (0, 0)
    for kind, voc, isc, sh, s in sc["wins"]:
        w = window(kind, voc, isc, sh, s, last)
        stream += [(v, i, kind) for v, i in w]
        last = w[-1] if w else last
        if kind != "curve":
            ctx.fault({"dark": "dropout", "lost": "samples_lost", "double": "samples_doubled"}.get(kind, "window_" + kind))
            ctx.probe("dropout", int(kind == "dark"))
            ctx.probe("corrupted", int(kind in ("random", "spike", "frozen")))
            ctx.probe("phase_shift", int(kind in ("lost", "double")))
    # steady end phase
    t_steady = len(stream)
    end = window(sc["endkind"] if sc["endkind"] == "curve" else "dark", *sc["end"], 0, last)
    settle = 3 * win + {"voc": 2 * itv + 2 * win, "opt": 0, "cv": 0, "po": itv}[algo]
    reps = min(settle // win + 3, 400)
    stream += [(v, i, "end") for v, i in end] * reps

    hist = []  # (v, i) by time
    occurred = {}  # pair -> last time
    set_prev = hrv.voltage_set_uV
    t_set = None
    pend = [p for p in end if vmin <= p[0] <= vmax]
    best = max((v * i for v, i in pend), default=None)
    voc_floor = max(1000, vmin)
    low = [v for v, i in end if i < limit and voc_floor <= v <= vmax]
    voc_true = min(low, default=vmax)
    moved = []
    po = {"dir": None, "p": 0}  # direction and power at the last interval
    res = []
    for t, (v, i, kind) in enumerate(stream):
        hist.append((v, i))
        occurred[(v, i)] = t
        rv, ri = hrv.ivcurve_sample(v, i)
        res.append((rv, ri))
        where = lambda: f"sample {t} of {len(stream)} ({kind}, {v} uV / {i} nA), window {win}, returned {rv} / {ri}"  # noqa: E731
        ctx.check(rv >= 0 and ri >= 0, "negative-harvest", where)
        ctx.probe("out_of_limits", int(not vmin <= v <= vmax and t < 50))
        if algo == "opt":
            if (rv, ri) != (0, 0):
                at = occurred.get((rv, ri))
                ctx.check(at is not None, "pair-not-from-stream", where)
                ctx.check(t - at <= 2 * win, "pair-too-old", lambda: f"last seen {t - at} samples ago; {where()}")
                ctx.check(vmin <= rv <= vmax, "pair-outside-limits", lambda: f"limits {vmin}..{vmax}; {where()}")
                better = max((a * b for a, b in hist[at + 1:] if vmin <= a <= vmax), default=-1)
                ctx.check(better < rv * ri or better <= rv * ri, "better-sample-ignored", lambda: f"{better} fW came after; {where()}")
            else:
                ctx.check(not (vmin <= v <= vmax and v * i > 0), "no-pair-although-usable", where)
            if kind == "end" and t >= t_steady + 3 * win and best is not None:
                ctx.check(rv * ri == best, "not-at-maximum-power", lambda: f"{rv * ri} instead of {best} fW, {t - t_steady} samples after the last change; {where()}")
                ctx.probe("converged_opt")
        else:
            if not sc["extra"]:
                ctx.check((rv, ri) in occurred or (rv, ri) == (0, 0), "pair-not-from-stream", where)
            s = hrv.voltage_set_uV
            if algo in ("voc", "po"):
                ctx.check(vmin - 1 <= s <= vmax + 1 or (algo == "po" and s == pru.voltage_step_uV), "set-point-outside-limits", lambda: f"{s} uV, limits {vmin}..{vmax}; {where()}")
                if algo == "po" and s == pru.voltage_step_uV:
                    ctx.check(s <= vmax or pru.voltage_step_uV > vmax, "set-point-outside-limits", lambda: f"{s} uV; {where()}")
            if algo == "cv":
                ctx.check(s == round(vset * 1e3) + 1, "constant-voltage-moved", lambda: f"{s}; {where()}")
            if s != set_prev:
                moved.append(t)
                ctx.probe("setpoint_moved")
                if algo == "po" and len(moved) > 1:
                    ctx.check((t - moved[0]) % itv == 0, "moved-between-intervals", lambda: f"{t - moved[0]} samples after the first move, interval {itv}; {where()}")
                if algo == "voc" and itv > dur + 1:
                    # only while measuring: the phase of the interval grid is known from the start
                    first = 2 * win - 1 if itv > 2 * win else 0
                    ph = (t - first) % itv
                    ctx.check(0 <= ph <= dur, "moved-between-intervals", lambda: f"phase {ph} of {itv}, measuring takes {dur}; {where()}")
            if algo == "po" and moved and (t - moved[0]) % itv == 0:
                # at every interval: onwards while the power rises, back otherwise
                p = rv * ri
                step_n = s - set_prev
                stop = s in (vmin, vmax, pru.voltage_step_uV)
                if po["dir"] is not None and not stop:
                    if p > po["p"]:
                        ctx.check(step_n * po["dir"] > 0, "left-the-rise", lambda: f"set-point moved {step_n} uV while power rose from {po['p']} to {p} (last direction {po['dir']}); {where()}")
                        ctx.probe("po_onwards")
                    elif p > 0:
                        ctx.check(step_n * po["dir"] < 0, "not-turned-back", lambda: f"set-point moved {step_n} uV while power fell from {po['p']} to {p} (last direction {po['dir']}); {where()}")
                        ctx.probe("po_turned")
                    else:
                        ctx.check(step_n != 0, "stands-still", where)
                if stop:
                    po["dir"] = -1 if s == vmax and s > max(vmin, pru.voltage_step_uV) else 1
                elif p <= 0 and p <= po["p"]:
                    po["dir"] = 1
                else:
                    po["dir"] = 1 if step_n > 0 else -1
                po["p"] = p
            set_prev = s
            if kind == "end" and t >= t_steady + settle - win and algo == "voc" and itv > dur + 1:
                first = 2 * win - 1 if itv > 2 * win else 0
                ph = (t - first) % itv
                want = voc_true if ph < dur else max(vmin, int(voc_true * round(min(255, cfg.setpoint_n * 256)) / 256))
                ctx.check(abs(s - want) <= 1, "not-at-fraction-of-voc", lambda: f"set-point {s} instead of {want} (open-circuit voltage {voc_true}); {where()}")
                ctx.probe("converged_voc")
                ctx.probe("voc_floor", int(want == vmin and vmin > 0))
            if kind == "end" and t >= t_steady + 2 * win and algo == "cv" and sc["endkind"] == "curve" and grid[0] < s < grid[-1]:
                d = min(abs(a - s) for a in grid)
                if not sc["extra"]:
                    ctx.check(abs(rv - s) == d and ri == curve(*sc["end"], rv), "not-at-its-voltage", lambda: f"aiming at {s}, closest point of the sweep is {d} uV off; {where()}")
                else:
                    ctx.check(abs(rv - s) <= 2 * step, "not-at-its-voltage", lambda: f"aiming at {s}, step {step}; {where()}")
                ctx.probe("converged_cv")
                ctx.probe("tie", int(sc["tie"] and 2 * d == step))
        if t % 53 == 0:
            ctx.state(algo, kind, sc["extra"], hrv.voltage_set_uV >= vmax, hrv.voltage_set_uV <= vmin, len(res) > 1 and res[-1] == res[-2], rv * ri == 0)
    ctx.simtime(len(stream) * 10_000)
    ctx.steps += len(stream)
    ctx.ev(algo, len(stream), len(moved), hash(tuple(res)) & 0xFFFFFFFF)


def simplify(sc):
    import copy

    for k, v in (("extra", False), ("dwell", 1), ("n", 8), ("vmin", 0), ("vmax", 5000), ("tie", False), ("down", False), ("vlow", 0.0), ("vtop", 5.0), ("endkind", "curve"), ("rising", True)):
        if sc[k] != v and not (k == "vmax" and sc["v"] > v) and not (k == "vmin" and sc["v"] < v):
            yield {**copy.deepcopy(sc), k: v}
    for k, w in enumerate(sc["wins"]):
        if w[0] != "curve":
            s = copy.deepcopy(sc)
            s["wins"][k][0] = "curve"
            yield s
