"""C16: a simulated UART transmitter and level recorder with imperfect clocks, decoded and compared character by character."""

from __future__ import annotations

import random
import warnings

import h5py
import numpy as np

RUNS = {"quick": 14000, "thorough": 200000}
RULE = (
    "a transmitter sends seeded text (any character of the frame's width, line ends of all kinds, control characters) at a seeded baud rate with clock deviation, "
    "stop bits, pauses and polarity; a recorder notes level changes with jitter, sampling grid, repeated entries and initial state, digital or analog, as array, "
    "csv file or multi-pin gpio-trace in a recording; decoded with given or detected parameters, queried in seeded order with repeats."
)
REAL = ["decoder_waveform.Uart", "Reader.gpio_to_uart, gpio_to_waveforms", "numpy text loading, h5py"]
STUB = ["UART line, transmitter clock and level recorder (simulated time)"]
SHRINK = ["text"]
STATE_MEASURE = "hash of (frame length, path, inverted, baud given, last two symbols' classes, pause class)"
MUST_HIT = ["csv", "gpio", "array", "inverted", "detected_baud", "detected_inversion", "back_to_back", "bare_cr", "crlf", "no_final_newline", "nul", "high_bit", "redundant", "fast", "empty_lines", "detected_by_late_pause"]

BAUDS = [1200, 9600, 19200, 38400, 57600, 115200, 230400, 460800, 1_000_000]


def gen(rng, tier, i):
    fl = rng.choice([8] * 8 + [5, 6, 7, 9])
    n = rng.choice([3, 8, 20, 60, 200])
    style = rng.choice(["ascii", "ascii", "lines", "any", "extreme"])
    text = []
    for _ in range(n):
        r = rng.random()
        if style in ("ascii", "lines") and fl >= 7:
            if r < (0.12 if style == "ascii" else 0.45):
                text += rng.choice([[10], [13], [13, 10], [10, 13], [13, 13], [10, 10]])
            else:
                text.append(rng.randrange(32, 127))
        elif style == "extreme":
            text.append(rng.choice([0, 1, 2 ** fl - 1, 2 ** (fl - 1), 2 ** (fl - 1) - 1, 0x55 & (2 ** fl - 1), 0xAA & (2 ** fl - 1), 13, 10]))
        else:
            text.append(rng.randrange(2 ** fl))
    err = rng.choice([0, 0, 0.01, 0.04, 0.08])
    return {
        "fl": fl, "text": text, "baud": rng.choice(BAUDS), "dev": rng.choice([0, 0, 0.005, -0.005, 0.01, -0.01]), "jit": err, "stop": rng.choice([1, 1, 1.5, 2]), "pause": rng.choice(["none", "none", "whole", "any", "long", "late"]), "pseed": rng.randrange(1 << 30),
        "inv": rng.random() < 0.35, "gb": rng.random() < 0.5, "gi": rng.random() < 0.5, "lead": rng.choice([0.3, 5, 90, 1000]), "red": rng.choice([0, 0, 0.2]), "start": rng.choice([0, 12.5, 1_700_000_000]), "path": rng.choice(["array", "array", "csv", "gpio", "gpio"]),
        "levels": rng.choice([[0, 1], [0, 1], [0.1, 3.3], [-5, 5]]), "ask": [rng.choice(["symbols", "lines", "text", "Symbols", "Lines", "Text"]) for _ in range(rng.randrange(1, 6))], "grid": rng.choice([0, 0, 1]), "pin": rng.randrange(16),
    }


def warm():
    import shepherd_core  # noqa: F401
    from shepherd_core.decoder_waveform import Uart  # noqa: F401


def transmit(sc):
    """Level changes (t [ns], level), start times [ns] of characters; first entry = initial state."""
    rng = random.Random(sc["pseed"])
    tick = 1e9 / (sc["baud"] * (1 + sc["dev"]))
    t = 0.0
    ev = [(0.0, 1)]
    t += sc["lead"] * tick
    level = 1
    starts = []

    def drive(v, dur):
        nonlocal t, level
        if v != level:
            ev.append((t, v))
            level = v
        t += dur

    last_extra = None
    late = int(len(sc["text"]) * (0.2 + sc["pseed"] % 97 / 130))
    for k, s in enumerate(sc["text"]):
        starts.append(len(ev))
        drive(0, tick)
        for b in range(sc["fl"]):
            drive((s >> b) & 1, tick)
        extra = {"none": 0, "whole": rng.choice([0, 0, 1, 3, 20]), "any": rng.choice([0, 0.3, 0.5, rng.uniform(0, 4), rng.uniform(0, 50)]), "long": rng.choice([0, 100, 2000]), "late": 150 if k == late else 0}[sc["pause"]]
        drive(1, (sc["stop"] + extra) * tick)
        last_extra = extra
        if k and extra == 0:
            pass
    # the line stays idle until the recorder is switched off
    ts = [e[0] + (rng.uniform(-0.5, 0.5) * sc["jit"] * tick if j else 0) for j, e in enumerate(ev)]
    if sc["grid"]:  # recorder samples on a grid of a hundredth of a bit
        g = max(1.0, tick / 100)
        ts = [round(x / g) * g for x in ts]
    ns = [round(x + sc["start"] * 1e9) if j else round(sc["start"] * 1e9) for j, x in enumerate(ts)]
    base = round(sc["start"] * 1e9)
    ns = [base + round(x) for x in ts]
    del last_extra
    return ns, [v for _, v in ev], starts


def lines_of(chars, times):
    out, cur, t0 = [], "", None
    k = 0
    while k < len(chars):
        if t0 is None:
            t0 = times[k]
        cur += chars[k]
        end = chars[k] == "\n" or (chars[k] == "\r" and not (k + 1 < len(chars) and chars[k + 1] == "\n"))
        if end:
            out.append((t0, cur))
            cur, t0 = "", None
        k += 1
    if cur:
        out.append((t0, cur))
    return out


def run(sc, ctx):
    from shepherd_core import Reader, Writer
    from shepherd_core.decoder_waveform import Uart

    warnings.simplefilter("ignore")
    ns, lv, starts = transmit(sc)
    fl = sc["fl"]
    chars = [chr(s) for s in sc["text"]]
    times = [ns[k] for k in starts]
    gpio = sc["path"] == "gpio"
    # what the decoder needs in order to find parameters by itself
    dur = np.diff(np.array(ns, dtype="i8")).astype(float)[:999]
    tick = 1e9 / (sc["baud"] * (1 + sc["dev"]))
    frac = dur / tick
    single = (frac > 0.85) & (frac < 1.15)
    near = (frac > 0.55) & (frac < 1.45) & ~single
    can_baud = len(dur) > 0 and single.mean() > 0.15 and not near.any() and frac.min() > 0.8
    can_inv = bool((np.array(frac) > 85).any())
    first_pause = int(np.argmax(np.array(frac) > 85)) if can_inv else 0
    gb = None if gpio else (sc["baud"] if sc["gb"] or not can_baud else None)
    gi = None if gpio else (sc["inv"] if sc["gi"] or not can_inv else None)
    if len(ns) < 9 or (gpio and (not can_baud or (sc["inv"] and not can_inv) or fl != 8)):
        ctx.ev("n/a")
        return
    used = gb or 1e9 / float(dur[single].mean())
    # each level inside a frame within a tenth of a bit of its nominal duration
    inside = np.diff(np.array(ns, dtype="i8")).astype(float)
    lvl = np.array(lv[:-1])
    st = set(starts)
    for k in range(1, len(inside)):
        if k + 1 in st:
            continue  # ends with a pause
        f = inside[k] * used * 1e-9
        if abs(f - round(inside[k] / tick)) > 0.09:
            ctx.ev("out of tolerance")
            ctx.probe("out_of_tolerance")
            return
    del lvl
    rng = random.Random(sc["pseed"] + 1)
    rows = []
    for k, (t, v) in enumerate(zip(ns, lv)):
        rows.append((t, v))
        if rng.random() < sc["red"]:  # further entries of the same state
            hi = ns[k + 1] if k + 1 < len(ns) else t + 1000
            rows.append((min(hi, t + rng.choice([0, 1, max(0, (hi - t) // 2)])), v))
            ctx.probe("redundant")
            ctx.fault("redundant_event")
    ctx.fault("clock_deviation", int(sc["dev"] != 0))
    ctx.fault("edge_jitter", int(sc["jit"] > 0))
    pol = [(1 - v if sc["inv"] else v) for _, v in rows]
    ctx.probe(sc["path"])
    ctx.probe("inverted", int(sc["inv"]))
    ctx.probe("detected_baud", int(gb is None))
    ctx.probe("detected_inversion", int(gi is None and can_inv))
    ctx.probe("detected_by_late_pause", int(gi is None and first_pause > 300))
    ctx.probe("back_to_back", int(sc["pause"] == "none"))
    txt = "".join(chars)
    ctx.probe("bare_cr", int("\r" in txt.replace("\r\n", "")))
    ctx.probe("crlf", int("\r\n" in txt))
    ctx.probe("no_final_newline", int(not txt.endswith(("\n", "\r"))))
    ctx.probe("nul", int("\0" in txt))
    ctx.probe("high_bit", int(any(s >> (fl - 1) for s in sc["text"])))
    ctx.probe("fast", int(sc["baud"] > 300_000))
    ctx.probe("empty_lines", int("\n\n" in txt or "\r\r" in txt))
    ctx.simtime(ns[-1] - ns[0])
    for k in range(1, min(len(chars), 40)):
        ctx.state(fl, sc["path"], sc["inv"], gb is None, sc["text"][k] in (10, 13), sc["text"][k - 1] in (10, 13), sc["pause"], sc["text"][k] >> (fl - 1))
    want = list(zip(times, chars))
    want_l = lines_of(chars, times)
    eps = 300 if gpio or sc["start"] > 1e9 else 2

    def cmp(got, ref, what):
        got = [(x[0], str(x[1])) for x in got]
        g, r = "".join(x[1] for x in got), "".join(x[1] for x in ref)
        ctx.check(g == r, "text-differs", lambda: f"{what}: {g[:200]!r} instead of {r[:200]!r}")
        ctx.check([x[1] for x in got] == [x[1] for x in ref], "cut-differs", lambda: f"{what}: {[x[1] for x in got][:20]!r} instead of {[x[1] for x in ref][:20]!r}")
        for (a, s), (b, _) in zip(got, ref):
            ctx.check(abs(float(a) * 1e9 - b) <= eps, "wrong-start-time", lambda: f"{what}: {s!r} at {a} s instead of {b} ns")

    if gpio:
        p = ctx.scratch / "g.h5"
        with Writer(p, verbose=False):
            pass
        pin = sc["pin"]
        words = np.array([(v << pin) | (rng.randrange(1 << 16) & ~(1 << pin)) for v in pol], dtype="u2")
        with h5py.File(p, "r+") as h:
            g = h.create_group("gpio")
            g.create_dataset("time", data=np.array([t for t, _ in rows], dtype="u8"))
            d = g.create_dataset("value", data=words)
            import yaml

            d.attrs["description"] = yaml.safe_dump({k: {"name": "gpio.uart_rx" if k == pin else f"gpio{k}"} for k in range(16)})
        with Reader(p, verbose=False) as r:
            a = r.gpio_to_uart()
            ctx.check(a is not None, "extraction-gave-up", lambda: f"{txt[:100]!r}")
            cmp(a, want_l, "gpio_to_uart()")
            cmp(r.gpio_to_uart(), want_l, "gpio_to_uart() again")
        ctx.ev("gpio", len(want), len(want_l))
        return
    lo, hi = sc["levels"]
    arr = np.array([[t / 1e9, hi if v else lo] for (t, _), v in zip(rows, pol)], dtype=float)
    if sc["start"] > 1e9:
        arr[:, 0] -= sc["start"]  # seconds since start: keeps resolution
        want = [(t - round(sc["start"] * 1e9), c) for t, c in want]
        want_l = [(t - round(sc["start"] * 1e9), c) for t, c in want_l]
        arr[:, 0] = [(t - round(sc["start"] * 1e9)) / 1e9 for t, _ in rows]
    keep = arr.copy()
    if sc["path"] == "csv":
        p = ctx.scratch / "w.csv"
        p.write_text("timestamp [s],uart\n" + "".join(f"{a!r},{b!r}\n" for a, b in arr.tolist()))
        src = p
    else:
        src = arr
    u = Uart(src, baud_rate=gb, frame_length=fl, inversion=gi)
    if gb is None:
        ctx.check(abs(u.baud_rate / used - 1) < 0.003 + 0.6 / used, "wrong-baud-rate", lambda: f"detected {u.baud_rate}, sent with {used:.1f}")
    ctx.check(bool(u.inversion) == sc["inv"] or (gi is None and not can_inv), "wrong-polarity", lambda: f"{u.inversion}")
    for q in [*sc["ask"], "text", "lines", "symbols"]:
        redo = q[0].isupper()
        if q.lower() == "symbols":
            cmp(u.get_symbols(force_redo=redo), want, "get_symbols()")
        elif q.lower() == "lines":
            cmp(u.get_lines(force_redo=redo), want_l, "get_lines()")
        else:
            ctx.check(u.get_text(force_redo=redo) == txt, "text-differs", lambda: f"get_text(): {u.get_text()[:200]!r} instead of {txt[:200]!r}")
    ctx.check(np.array_equal(keep, arr), "input-changed", lambda: f"{keep[:3]} -> {arr[:3]}")
    ctx.ev(sc["path"], u.baud_rate, len(want), len(want_l))


def simplify(sc):
    import copy

    for k, v in (("jit", 0), ("dev", 0), ("red", 0), ("pause", "none"), ("inv", False), ("start", 0), ("stop", 1), ("levels", [0, 1]), ("path", "array"), ("gb", True), ("gi", True), ("lead", 90), ("ask", []), ("grid", 0), ("fl", 8)):
        if sc[k] != v:
            yield {**copy.deepcopy(sc), k: v}
    for k, s in enumerate(sc["text"]):
        if s not in (10, 13, 97):
            c = copy.deepcopy(sc)
            c["text"][k] = 97
            yield c
