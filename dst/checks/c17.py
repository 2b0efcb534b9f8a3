"""C17: simulated multi-pin port histories, extracted per pin and exported, against the recorded states at every instant."""

from __future__ import annotations

import random

import h5py
import numpy as np
import yaml

from .. import h5util
from ..sim import LEGAL_FAULTS, WRITE_FAULTS, gen_fault, place, process

RUNS = {"quick": 1800, "thorough": 40000}
RULE = (
    "a simulated recorder notes states of a 4..64 pin port (independent pins with seeded rates, glitches of a few ns, repeated entries, entries of other pins, lost entries, "
    "bursts, none at all), described pins in any order with overlapping names; extraction of all or one named pin, present or not, export as csv by API and "
    "command line, twice, with short / interrupted reads, process death and full disk during export, undecodable chunks."
)
REAL = ["Reader.gpio_to_waveforms, get_gpio_pin_num, waveform_to_csv", "shepherd-data extract-gpio", "h5py / HDF5, real file system, real processes"]
STUB = ["port and recorder (simulated time)", "disk completion and process death through libsim"]
SHRINK = ["ev", "names"]
STATE_MEASURE = "hash of (pins, word type, number of events class, operation, fault kind, redundant share class)"
MUST_HIT = ["empty", "single_event", "overlapping_names", "missing_name", "csv", "cli", "export_disturbed", "undecodable", "redundant", "glitch", "high_pin", "string_keys"]


def warm():
    import shepherd_core  # noqa: F401
    import shepherd_data  # noqa: F401
    from shepherd_data import cli  # noqa: F401


NAMES = ["uart_rx", "uart", "gpio1", "gpio10", "gpio11", "gpio0", "swd_clk", "swd_clk2", "tgt.io", "TX", "tx", "pwr_good", "vcap low", "gpio", "x_uart", "a_gpio1", "0gpio", "b.TX"]


def gen(rng, tier, i):
    bits = rng.choice([16, 16, 32, 64, 8])
    pins = sorted(rng.sample(range(bits), min(bits, rng.randrange(1, 9))))
    names = rng.sample(NAMES, min(len(NAMES), len(pins)))
    pins = pins[: len(names)]
    nm = [[p, n] for p, n in zip(pins, names)]
    if rng.random() < 0.5:
        rng.shuffle(nm)
    n = rng.choice([0, 0, 1, 2, 10, 60, 400])
    ev = []
    for _ in range(n):
        ev.append([rng.choice(["toggle", "toggle", "toggle", "others", "repeat", "glitch", "all", "lost"]), rng.randrange(64), rng.choice([1, 7, 100, 10_000, 10**6, 3 * 10**9])])
    return {
        "bits": bits, "names": nm, "ev": ev, "init": rng.getrandbits(bits), "start": rng.choice([0, 1_700_000_000 * 10**9 + rng.randrange(10**9)]), "strkeys": rng.random() < 0.3, "keep_order": rng.random() < 0.5, "comp": rng.random() < 0.5,
        "ask": rng.choice([None, None, "name", "name", "missing"]), "which": rng.randrange(20), "via": rng.choice(["api", "api", "cli"]), "sep": rng.choice([",", ";"]),
        "fault": rng.choice([None, None, gen_fault(rng, LEGAL_FAULTS), gen_fault(rng, WRITE_FAULTS), gen_fault(rng, WRITE_FAULTS), {"k": "rot", "seed": rng.randrange(1 << 20), "ds": rng.choice(["time", "value"])}]),
    }


def record(sc):
    bits = sc["bits"]
    full = (1 << bits) - 1
    used = [p for p, _ in sc["names"]]
    t, w = sc["start"], sc["init"] & full
    hist = []
    if sc["ev"]:
        hist.append((t, w))
    for kind, a, dt in sc["ev"][1:]:
        t += dt
        if kind == "toggle":
            w ^= 1 << used[a % len(used)] if used else 0
        elif kind == "others":
            m = full
            for p in used:
                m &= ~(1 << p)
            w ^= random.Random(a).getrandbits(bits) & m
        elif kind == "glitch" and used:
            p = 1 << used[a % len(used)]
            hist.append((t, w ^ p))
            t += 1 + a % 3
        elif kind == "all":
            w ^= full
        elif kind == "lost":
            w ^= 1 << (a % bits)
            continue  # the recorder missed this one
        hist.append((t, w))
    return hist


def expected(hist, pin):
    out = []
    for t, w in hist:
        s = (w >> pin) & 1
        if not out or out[-1][1] != s:
            out.append((t, s))
    return out


def extract(path, name, export, sep):
    from shepherd_data import Reader

    with Reader(path, verbose=False) as r:
        wf = r.gpio_to_waveforms(name)
        if export:
            for k, v in wf.items():
                r.waveform_to_csv(k, v, sep)
    return {k: [(int(a), int(b)) for a, b in v] for k, v in wf.items()}


def cli(path, sep):
    from click.testing import CliRunner
    from shepherd_data.cli import cli as c

    r = CliRunner().invoke(c, ["extract-gpio", str(path), "-s", sep])
    return r.exit_code


def run(sc, ctx):
    from shepherd_core import Writer

    root = ctx.scratch / "d"
    root.mkdir()
    p = root / "rec.h5"
    hist = record(sc)
    with Writer(p, verbose=False):
        pass
    with h5py.File(p, "r+") as h:
        g = h.create_group("gpio")
        kw = {"chunks": (64,), "compression": "gzip", "maxshape": (None,)} if sc["comp"] else {}
        g.create_dataset("time", data=np.array([t for t, _ in hist], dtype="u8"), **kw)
        d = g.create_dataset("value", data=np.array([w for _, w in hist], dtype=f"u{sc['bits'] // 8}"), **kw)
        desc = {(str(a) if sc["strkeys"] else a): {"name": b, "dir": "in"} for a, b in sc["names"]}
        d.attrs["description"] = yaml.safe_dump(desc, sort_keys=not sc["keep_order"])
    orig = p.read_bytes()
    by_name = {b: a for a, b in sc["names"]}
    want_all = {b: expected(hist, a) for a, b in sc["names"]}
    ctx.probe("empty", int(not hist))
    ctx.probe("single_event", int(len(hist) == 1))
    ctx.probe("redundant", sum(a[1] == b[1] for a, b in zip(hist, hist[1:])))
    ctx.probe("glitch", sum(e[0] == "glitch" for e in sc["ev"]))
    ctx.probe("high_pin", int(any(a >= 16 for a, _ in sc["names"])))
    ctx.probe("string_keys", int(sc["strkeys"]))
    over = [b for b in by_name if any(b != c and b in c for c in by_name)]
    ctx.probe("overlapping_names", int(bool(over)))
    for e in sc["ev"]:
        if e[0] in ("lost", "glitch", "repeat"):
            ctx.fault({"lost": "event_lost", "glitch": "glitch", "repeat": "event_repeated"}[e[0]])
    if hist:
        ctx.simtime(hist[-1][0] - hist[0][0])
    name, want = None, want_all
    if sc["ask"] == "name" and sc["names"]:
        name = (over or sorted(by_name))[sc["which"] % len(over or by_name)]
        want = {name: want_all[name]}
    elif sc["ask"] == "missing":
        name, want = "no such pin", {}
        ctx.probe("missing_name")

    def verify(got, why):
        ctx.check(set(got) == set(want), "pins-differ", lambda: f"{why}: {sorted(got)} instead of {sorted(want)}")
        for k, rows in want.items():
            if got[k] != rows:
                d = next((j for j, (x, y) in enumerate(zip(got[k], rows)) if x != y), min(len(got[k]), len(rows)))
                ctx.check(False, "waveform-differs", f"{why}: pin {by_name[k]} '{k}', entry {d}: {got[k][d:d + 2]} instead of {rows[d:d + 2]} ({len(got[k])} / {len(rows)} entries)")

    def csv_of(k):
        return root / f"rec.waveform.{k}.csv"

    def parse(k, why):
        txt = csv_of(k).read_text().splitlines()
        ctx.check(txt and txt[0].split(",")[0] == "timestamp [s]" and txt[0].endswith(k), "csv-header", lambda: f"{why}: {txt[:1]}")
        rows = []
        for ln in txt[1:]:
            a, b = ln.split(sc["sep"])
            s, _, f = a.partition(".")
            if "e" in a.lower():
                rows.append((round(float(a) * 1e9), int(b)))
            else:
                rows.append((int(s) * 10**9 + int((f + "0" * 9)[:9]), int(b)))
        return rows

    def verify_csv(names, why):
        for k in names:
            ctx.check(csv_of(k).exists(), "no-csv", lambda: f"{why}: {k}")
            rows = parse(k, why)
            w = want_all[k]
            ctx.check([r[1] for r in rows] == [r[1] for r in w], "csv-differs", lambda: f"{why}: states of {k}")
            ctx.check(all(abs(a[0] - b[0]) <= 1 for a, b in zip(rows, w)), "csv-times-differ", lambda: f"{why}: {k}: {[(a, b) for a, b in zip(rows, w) if abs(a[0] - b[0]) > 1][:2]}")

    r = process(extract, p, name, False, sc["sep"])
    ctx.check(r.status == "ok", "extraction-fails", lambda: f"{name!r}: {r}")
    verify(r.value, f"gpio_to_waveforms({name!r})")
    f = sc["fault"]
    is_cli = sc["via"] == "cli"
    exp = want_all if is_cli else want
    job = (cli, p, sc["sep"]) if is_cli else (extract, p, name, True, sc["sep"])
    ctx.probe("cli", int(is_cli))
    ctx.state(len(by_name), sc["bits"], min(len(hist), 3), sc["via"], f and f["k"], name)
    if f and f["k"] == "rot":
        if not sc["comp"] or not hist:
            return
        h5util.rot_payload(p, "gpio/" + f["ds"], f["seed"])
        try:
            with h5py.File(p) as h:
                h["gpio"][f["ds"]][:]
            return  # chunks that didn't compress are stored as they are
        except OSError:
            pass
        ctx.fault("gpio_chunk_undecodable")
        ctx.probe("undecodable")
        r = process(*job)
        ctx.check(r.status in ("ok", "exc"), "extraction-dies", lambda: f"{r}")
        if r.status == "ok" and not is_cli:
            verify(r.value, "damaged elsewhere")  # only entries with changes are read
            return
        ctx.check(not list(root.glob("*.csv")), "csv-of-damaged-trace", lambda: f"{sorted(x.name for x in root.iterdir())}")
        return
    if f:
        dry = process(*job, root=root)
        for x in root.glob("*.csv"):
            x.unlink()
        s = process(*job, root=root, plan=[place(f, dry.ops)])
        ctx.absorb(s)
        ctx.probe("export_disturbed", int(bool(s.fired)))
        done = [k for k in exp if csv_of(k).exists()]
        verify_csv(done, f"after {f}")
        if s.status == "ok" and f["k"] in LEGAL_FAULTS:
            verify_csv(exp, f"under {f}")
    else:
        s = process(*job, root=root)
        ctx.check(s.status == "ok", "export-fails", lambda: f"{s}")
    for k in list(exp)[:1]:
        if csv_of(k).exists() and sc["which"] % 3 == 0:  # a file that is there is left alone
            csv_of(k).write_text("mine")
            exp = {a: b for a, b in exp.items() if a != k}
            mine = k
            break
    else:
        mine = None
    s = process(*job)
    ctx.check(s.status == "ok", "export-fails", lambda: f"again: {s}")
    verify_csv(exp, "finally")
    if mine:
        ctx.check(csv_of(mine).read_text() == "mine", "csv-overwritten", mine)
    ctx.probe("csv", len(exp))
    left = sorted(x.name for x in root.iterdir() if not x.name.startswith("rec."))
    ctx.check(not left or f, "left-behind", lambda: f"{left}")
    ctx.check(p.read_bytes() == orig, "recording-changed", "")
    ctx.ev(len(hist), sorted(exp), len(left))


def simplify(sc):
    import copy

    for k, v in (("bits", 16), ("start", 0), ("strkeys", False), ("keep_order", False), ("comp", False), ("ask", None), ("via", "api"), ("fault", None), ("init", 0), ("which", 1)):
        if sc[k] != v and not (k == "bits" and any(a >= 16 for a, _ in sc["names"])):
            yield {**copy.deepcopy(sc), k: v}
