"""C22: extraction of logs from damaged, half-written and oddly structured recordings, on disks that fail while reading."""

from __future__ import annotations

import logging
import random
import re
from datetime import datetime, timezone

import h5py
import numpy as np

from ..sim import gen_fault, place, process

RUNS = {"quick": 600, "thorough": 25000}
RULE = (
    "seeded recordings with several log groups (entries, levels, odd text, extra columns, sub-groups, scalars, columns that are shorter because the recorder died between two "
    "appends); compressed chunks of seeded columns are damaged, reads fail while exporting. Exports, counts, warnings, samples and the cli's extraction are compared with "
    "what h5py itself can still read, element by element."
)
REAL = ["Reader (constructor, save_log, warn_logs, count_errors_in_log, save_metadata, save_csv)", "cli extract-meta", "HDF5 library, files"]
STUB = ["damage of stored chunk payloads and failing reads (libsim)"]
SHRINK = ["groups", "ops"]
STATE_MEASURE = "hash of (group layout, damaged columns, operation, level / limit class, outcome)"
MUST_HIT = ["damaged_level", "damaged_message", "damaged_time", "damaged_samples", "short_column", "subgroup", "scalar", "matrix", "limit_hit", "limit_zero", "clock_unset", "huge_log", "no_message", "eio_export", "cli", "intact", "everything_lost", "no_timestamp"]

LOGS = ["sheep", "kernel", "phc2sys", "uart", "dmesg", "exceptions", "shepherd-log"]
CSVS = ["ptp", "sys_util", "pru_util", "timesync"]
NASTY = ["", "plain", "two\nlines", "tab\there", "umläut ✓", "cr\r", "'quote\"", "\x00nul"[1:], "x" * 300, "  spaces  ", "[[[", "\\n"]


def gen_group(rng, name):
    n = rng.choice([0, 1, 3, 10, 40, 120])
    if rng.random() < 0.01:
        n = rng.choice([2050, 10_050])
    return {
        "name": name, "n": n, "zero": rng.random() < 0.15, "chunk": rng.choice([2, 8, 32]), "seed": rng.randrange(1 << 20), "level": rng.random() < 0.8, "msg": rng.random() < 0.93,
        "extra": rng.sample(["pid", "xyz", "scalar", "sub", "subsub", "text"], rng.choice([0, 0, 1, 2, 4])),
        "short": {rng.choice(["level", "message", "pid"]): rng.choice([0, 1, 2])} if rng.random() < 0.25 else {},
        "dmg": [[rng.choice(["level", "message", "time", "message", "level", "pid"]), rng.choice([rng.randrange(16), rng.randrange(16), -1])] for _ in range(rng.choice([0, 0, 1, 1, 2]))],
    }


def gen_op(rng, names):
    r = rng.random()
    g = rng.choice(names)
    if r < 0.35:
        return {"op": "save", "g": g, "ts": rng.random() < 0.8}
    if r < 0.6:
        return {"op": "warn", "g": g, "level": rng.choice([0, 10, 20, 30, 30, 31, 40, 50, 100]), "limit": rng.choice([0, 1, 2, 10, 1000]), "show": rng.random() < 0.8}
    if r < 0.7:
        return {"op": "count", "g": g, "level": rng.choice([0, 30, 40, 41, 51])}
    if r < 0.85:
        return {"op": "cli"}
    return {"op": "eio", "g": g, "fault": gen_fault(rng, ["EIO-read"]), "ts": rng.random() < 0.8}


def gen(rng, tier, i):
    names = rng.sample(LOGS, rng.randrange(1, 5))
    if rng.random() < 0.6 and "sheep" not in names:
        names[0] = "sheep"
    return {
        "groups": [gen_group(rng, n) for n in names], "csv": [[n, rng.choice([1, 20, 100]), rng.random() < 0.25] for n in rng.sample(CSVS, rng.choice([0, 1, 2]))],
        "samples": rng.random() < 0.15, "ops": [gen_op(rng, names) for _ in range(rng.randrange(1, 5))], "comp": rng.choice(["gzip", "gzip", "lzf"]),
    }


def warm():
    import shepherd_data.cli  # noqa: F401


def damage(path, dset, which, seed):
    """Overwrite chunk payloads, only such that went through the filter (else they'd be addresses)."""
    out = 0
    with h5py.File(path, "r") as h:
        if dset not in h or not isinstance(h[dset], h5py.Dataset) or h[dset].chunks is None:
            return 0
        d = h[dset]
        ch = [d.id.get_chunk_info(k) for k in range(d.id.get_num_chunks())]
        ch = [(c.byte_offset, c.size) for c in ch if c.filter_mask == 0]
    if not ch:
        return 0
    b = bytearray(path.read_bytes())
    for k in range(len(ch)) if which < 0 else [which % len(ch)]:
        off, size = ch[k]
        for j in range(size):
            b[off + j] = 0xFF if j % 2 == 0 else 0xA5
        out += 1
    path.write_bytes(bytes(b))
    return out


def build(sc, path):
    from shepherd_core import Writer

    with Writer(path, mode="harvester", datatype="ivsample", window_samples=0, force_overwrite=True, verbose=False) as w:
        w.store_hostname("node")
        t = np.arange(20_000) * 1e-5 + 1_700_000_000
        w.append_iv_data_si(t, np.linspace(1, 2, 20_000), np.linspace(1e-4, 2e-4, 20_000))
    st = h5py.special_dtype(vlen=str)
    comp = sc["comp"]
    with h5py.File(path, "r+") as h:
        for g in sc["groups"]:
            r = random.Random(g["seed"])
            n, ck = g["n"], (g["chunk"],)
            grp = h.create_group(g["name"])

            def col(name, data, **kw):
                m = max(0, len(data) - g["short"].get(name, 0))
                d = grp.create_dataset(name, shape=(m, *np.shape(data)[1:]), maxshape=(None, *np.shape(data)[1:]), chunks=ck + np.shape(data)[1:], compression=comp, **kw)
                if m:
                    d[:] = data[:m]
                d.attrs["description"] = name
                d.attrs["unit"] = "n"

            t0 = r.randrange(1_600_000_000, 1_900_000_000) * 10**9
            if g.get("zero"):  # the clock was not set yet
                t0 = 0
            col("time", np.array([t0 + k * r.choice([1000, 10**6, 10**9]) for k in range(n)], dtype="<u8"), dtype="<u8")
            if g["level"]:
                col("level", np.array([r.choice([10, 20, 30, 40, 40, 50, 51, 60, 255, 0]) for _ in range(n)], dtype="<u1"), dtype="<u1")
            if g["msg"]:
                col("message", [f"entry{k}#{r.choice(NASTY)}" for k in range(n)], dtype=st)
            if "pid" in g["extra"]:
                col("pid", np.arange(n, dtype="<i4") % 7, dtype="<i4")
            if "text" in g["extra"]:
                col("unit", [r.choice(NASTY) for _ in range(n)], dtype=st)
            if "xyz" in g["extra"] and n:
                col("xyz", np.arange(n * 3, dtype="<i4").reshape(n, 3), dtype="<i4")
            if "scalar" in g["extra"]:
                grp.create_dataset("version", data=3)
            if "sub" in g["extra"]:
                grp.create_group("more").create_dataset("data", data=np.arange(5))
            if "subsub" in g["extra"]:
                grp.create_group("a/b/c")
        for name, n, _ in sc["csv"]:
            grp = h.create_group(name)
            for c, dt in (("time", "<u8"), ("values", "<i8")):
                d = grp.create_dataset(c, shape=(n,), maxshape=(None,), chunks=(16,), compression=comp, dtype=dt)
                d[:] = np.arange(n) * 10**9
                d.attrs["description"] = c
                d.attrs["unit"] = "n"
    return path


def elements(ds):
    out = []
    for k in range(ds.shape[0]):
        try:
            out.append(ds[k])
        except OSError:
            out.append(None)
    return out


class Want:
    """What can be read from the file, element by element."""

    def __init__(self, path):
        self.g = {}
        with h5py.File(path, "r") as h:
            for name in h:
                if name in LOGS:
                    self.g[name] = {k: elements(h[name][k]) for k in h[name] if isinstance(h[name][k], h5py.Dataset) and h[name][k].shape != ()}
            self.samples = None
            try:
                self.samples = (h["data/voltage"][:], h["data/current"][:])
            except OSError:
                pass

    def check_log(self, ctx, name, text, ts, why, *, lenient=False):
        g = self.g[name]
        n = len(g["time"])
        lines = text.split("\n")
        ctx.check(lines[-1] == "", "last-line-unfinished", why)
        lines = lines[:-1]
        ctx.check(len(lines) == n, "wrong-number-of-lines", lambda: f"{why}: {len(lines)} lines for {n} entries")
        cols = [k for k in g if k != "time"]
        for k, ln in enumerate(lines):
            f = ln.split("\t")
            if ts:
                t = g["time"][k]
                if t is None:
                    ctx.check("faulty" in f[0], "faulty-entry-not-marked", lambda: f"{why}: line {k}: {ln!r:.200}, its time is unreadable")
                elif not (lenient and "faulty" in f[0]):
                    m = re.match(r"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{6})", f[0])
                    ctx.check(m is not None, "entry-without-time", lambda: f"{why}: line {k}: {ln!r:.200}")
                    d = datetime.strptime(m.group(1), "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=timezone.utc).timestamp()
                    ctx.check(abs(d - int(t) / 1e9) < 5e-6, "wrong-time", lambda: f"{why}: line {k}: {ln!r:.200}, should be {int(t)}")
            f = f[1:]
            ctx.check(len(f) >= len(cols), "columns-missing", lambda: f"{why}: line {k} has {len(f)} columns for {cols}: {ln!r:.200}")
            for c in cols:
                v = g[c][k] if k < len(g[c]) else None
                if v is None:
                    ctx.check(any("faulty" in x for x in f), "faulty-entry-not-marked", lambda: f"{why}: line {k}: {ln!r:.200}, {c} is unreadable")
                    continue
                if lenient and any("faulty" in x for x in f):
                    continue
                ok = {str(v)}
                if isinstance(v, bytes):
                    ok.add(v.decode(errors="replace"))
                    ok.add(repr(v)[2:-1])
                ctx.check(any(x in ok for x in f), "entry-lost", lambda: f"{why}: line {k}: {ln!r:.200} lacks {c} = {v!r:.100}")


class Catch(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, rec):
        self.got.append(rec.getMessage())


def with_reader(path, fn):
    logging.disable(logging.NOTSET)
    from shepherd_data import Reader

    with Reader(path, verbose=False) as r:
        h = Catch()
        log = getattr(r, "_logger", logging.getLogger())
        log.addHandler(h)
        val = fn(r)
        log.removeHandler(h)
    return val, h.got


def run(sc, ctx):
    root = ctx.scratch / "d"
    root.mkdir()
    path = build(sc, root / "rec.h5")
    dmg = False
    for g in sc["groups"]:
        ctx.probe("short_column", int(bool(g["short"]) and g["n"] > 2))
        ctx.probe("subgroup", int("sub" in g["extra"] or "subsub" in g["extra"]))
        ctx.probe("scalar", int("scalar" in g["extra"]))
        ctx.probe("matrix", int("xyz" in g["extra"] and g["n"] > 0))
        ctx.probe("no_message", int(not g["msg"]))
        ctx.probe("clock_unset", int(bool(g.get("zero")) and g["n"] > 0))
        ctx.probe("huge_log", int(g["n"] > 10_000))
        for c, which in g["dmg"]:
            k = damage(path, f"{g['name']}/{c}", which, g["seed"])
            if k:
                ctx.fault("damaged_" + c, k)
                ctx.probe(f"damaged_{c}")
                dmg = True
    for name, _, bad in sc["csv"]:
        if bad and damage(path, f"{name}/values", 0, 1):
            ctx.fault("damaged_csv_column")
            dmg = True
    if sc["samples"] and damage(path, "data/current", 0, 1):
        ctx.fault("damaged_samples")
        ctx.probe("damaged_samples")
    ctx.probe("intact", int(not dmg))
    want = Want(path)
    before = path.read_bytes()
    ctx.probe("everything_lost", int(any(g and g["time"] and all(v is None for c in g.values() for v in c) for g in want.g.values())))

    r = process(with_reader, path, lambda r: (r.ds_voltage[:], r.ds_current[:]) if want.samples else None)
    ctx.check(r.status == "ok", "recording-unreadable", lambda: f"damage {[(g['name'], g['dmg'], g['short']) for g in sc['groups']]}: {r} {r.value[2][-500:] if r.status == 'exc' else ''}")
    if want.samples:
        ctx.check(all((a == b).all() for a, b in zip(r.value[0], want.samples)), "samples-changed", "")

    for j, o in enumerate(sc["ops"]):
        op = o["op"]
        why = f"op {j} {o}"
        name = o.get("g")
        if name is not None and name not in want.g:
            continue
        g = want.g.get(name)
        spec = next((x for x in sc["groups"] if x["name"] == name), None)
        out = path.with_suffix(f".{name}.log")
        if op in ("save", "eio"):
            out.unlink(missing_ok=True)
            fn = lambda r: r.save_log(r.h5file[name], add_timestamp=o["ts"])  # noqa: E731, B023
            if op == "eio":
                dry = process(with_reader, path, fn, root=root)
                out.unlink(missing_ok=True)
                r = process(with_reader, path, fn, root=root, plan=[place(o["fault"], dry.ops)])
                ctx.absorb(r)
                ctx.probe("eio_export", int(bool(r.fired)))
                if r.status == "ok" and g["time"] and out.exists():
                    want.check_log(ctx, name, out.read_text(encoding="utf-8-sig"), o["ts"], why, lenient=True)
                elif out.exists():
                    ctx.check(False, "partial-log", f"{why}: {r}, log has {out.stat().st_size} bytes")
            else:
                r = process(with_reader, path, fn)
                ctx.check(r.status == "ok", "export-fails", lambda: f"{why} {spec}: {r} {r.value[2][-400:] if r.status == 'exc' else ''}")
                ctx.check(r.value[0] == len(g["time"]), "wrong-count", lambda: f"{why}: {r.value[0]} for {len(g['time'])} entries")
                ctx.probe("no_timestamp", int(not o["ts"]))
                if g["time"]:
                    ctx.check(out.is_file(), "log-missing", why)
                    want.check_log(ctx, name, out.read_text(encoding="utf-8-sig"), o["ts"], f"{why} {spec}")
            out.unlink(missing_ok=True)
            ctx.state(op, sorted(spec["extra"]), sorted({c for c, _ in spec["dmg"]}), bool(spec["short"]), r.status)
        elif op in ("warn", "count"):
            lvl = g.get("level")
            m = len(g["time"])
            sel = [k for k in range(min(m, len(lvl))) if lvl[k] is not None and lvl[k] >= o["level"]] if lvl is not None else []
            if op == "count":
                r = process(with_reader, path, lambda r: r.count_errors_in_log(name, o["level"]))  # noqa: B023
            else:
                r = process(with_reader, path, lambda r: r.warn_logs(name, o["level"], o["limit"], show=o["show"]))  # noqa: B023
            ctx.check(r.status == "ok", "counting-fails", lambda: f"{why} {spec}: {r} {r.value[2][-400:] if r.status == 'exc' else ''}")
            ctx.check(r.value[0] == len(sel), "wrong-count", lambda: f"{why}: reported {r.value[0]}, there are {len(sel)}: {lvl}")
            if op == "warn" and "message" in g:
                text = [x for x in r.value[1] if re.search(r"entry\d+#", x) or "faulty" in x]
                first = sel[: max(0, o["limit"])] if o["show"] else []
                ctx.probe("limit_hit", int(len(first) < len(sel) and o["show"]))
                ctx.probe("limit_zero", int(o["limit"] == 0 and bool(sel) and o["show"]))
                msgs = [g["message"][k] if k < len(g["message"]) else None for k in first]
                got = [int(re.search(r"entry(\d+)#", x).group(1)) for x in text if re.search(r"entry\d+#", x)]
                exp = [k for k, v in zip(first, msgs) if v is not None]
                ctx.check(got == exp and len(text) == len(first), "wrong-entries-listed", lambda: f"{why}: listed {got} in {len(text)} lines, expected {exp} in {len(first)}")
            ctx.state(op, o["level"], min(o.get("limit", 0), 11), sorted({c for c, _ in spec["dmg"]}), len(sel) > 0)
        else:
            ctx.probe("cli")
            for p in root.iterdir():
                if p != path:
                    p.unlink()

            def job():
                from shepherd_data.cli import cli

                try:
                    cli.main(["extract-meta", str(path)], standalone_mode=False)
                except SystemExit as e:
                    return e.code

            r = process(job)
            ctx.check(r.status == "ok", "extraction-fails", lambda: f"{why}: {r}")
            have = sorted(p.name for p in root.iterdir())
            for n, gg in want.g.items():
                p = path.with_suffix(f".{n}.log")
                if gg["time"]:
                    ctx.check(p.is_file(), "log-missing", lambda: f"{why}: {p.name} not among {have}; damage {[(x['name'], x['dmg'], x['extra'], x['short']) for x in sc['groups']]} csv {sc['csv']}")
                    want.check_log(ctx, n, p.read_text(encoding="utf-8-sig"), True, f"{why} {n}")
            for n, k, bad in sc["csv"]:
                if not bad:
                    p = path.with_suffix(f".{n}.csv")
                    ctx.check(p.is_file() and len(p.read_text(encoding="utf-8-sig").splitlines()) == k + 1, "csv-missing", lambda: f"{why}: {p.name}; {have}")
            if want.samples:
                ctx.check(path.with_suffix(".yaml").is_file(), "metadata-missing", lambda: f"{why}: {have}; damage {[(x['name'], x['dmg']) for x in sc['groups']]}")
            ctx.state(op, len(want.g), dmg)
        ctx.ev(op, name or "")
    ctx.check(path.read_bytes() == before, "recording-changed", "")


def simplify(sc):
    import copy

    for k, v in (("csv", []), ("samples", False), ("comp", "gzip")):
        if sc[k] != v:
            yield {**copy.deepcopy(sc), k: v}
    for k, g in enumerate(sc["groups"]):
        for key, v in (("extra", []), ("short", {}), ("dmg", []), ("dmg", g["dmg"][:1]), ("n", 3), ("level", True), ("msg", True)):
            if g[key] != v:
                s = copy.deepcopy(sc)
                s["groups"][k][key] = v
                yield s
