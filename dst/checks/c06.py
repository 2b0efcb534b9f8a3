"""C06: batch commands over seeded mixes of intact, damaged and unreadable recordings in seeded listing order, against runs on each file alone."""

from __future__ import annotations

import os
import random
import shutil

import h5py
import numpy as np
import yaml

from ..h5util import rot_payload, snap
from ..sim import process
from .c04 import uart_events
from .c04 import warm as warm04

RUNS = {"quick": 400, "thorough": 20000}
RULE = (
    "a directory of 1-4 seeded recordings (rates, lengths, gpio, logs; intact or damaged in one of 18 ways) is given to one CLI command "
    "with seeded options; the order in which the file system lists the directory is decided by the simulator, and one file may "
    "fail to be read from the disk from a seeded system call on; outputs and exit status are compared with runs on each file alone."
)
REAL = ["shepherd_data.cli (all batch commands through click)", "shepherd_data / shepherd_core Reader", "h5py on a real file system"]
STUB = ["directory listing order", "disk read errors through libsim"]
SHRINK = ["files"]
STATE_MEASURE = "hash of (command, damage kinds in listing order, exit status, number of outputs)"
MUST_HIT = ["damaged_in_batch", "EIO", "validate_rejects", "validate_accepts", "outputs_compared", "multiplot", "curves_compared", "range_beyond_recording"]

CMDS = ["validate", "validate", "extract", "extract-meta", "extract-gpio", "extract-uart", "downsample", "downsample", "plot", "plot-multi"]
BAD = ["truncated", "empty", "garbage", "no_data", "no_time", "no_voltage", "no_current", "no_mode", "bad_mode", "no_dtype", "no_gain", "text_gain", "rot_time", "rot_voltage", "rot_current", "bad_dtype", "ivc_no_win", "data_is_ds"]
ODD = ["jump", "gpio_no_uart", "gpio_empty", "gpio_no_desc", "gpio_desc_text", "log_rot", "no_samples", "no_host", "ts_missing"]
# structural damage / time jump => validate must fail; ODD (but jump) keeps the validity of the samples


def warm() -> None:
    warm04()


def gen(rng, tier, i):
    cmd = CMDS[i % len(CMDS)]
    files = []
    n_files = rng.choice([1, 2, 2, 3, 3, 4])
    sole = rng.randrange(n_files) if cmd == "validate" and rng.random() < 0.6 else None  # the only one that is damaged
    for k in range(n_files):
        r = rng.random() if sole is None else 0.0
        kind = [*BAD, "jump"][i // 5 % (len(BAD) + 1)] if k == sole else "ok" if r < 0.45 else rng.choice(BAD) if r < 0.8 else rng.choice(ODD)
        step = 10_000 if cmd == "validate" else rng.choice([10_000, 10_000, 20_000, 100_000])
        files.append({"kind": kind, "n": rng.choice([10_000, 20_000, 30_000]) if cmd != "extract" else rng.choice([10_000, 12_000]), "step": step, "seed": rng.randrange(1 << 30),
                      "gpio": rng.random() < 0.7, "text": rng.choice(["hello\n", "a\r\nb\n", "xyz", "l1\nl2\nl3\n"]), "log": rng.random() < 0.5, "at": rng.random(), "sub": rng.random() < 0.25, "name": rng.choice(["", "", "", ".downsample_x5", ".cut_0s010_to_0s080", " x", ".0", "_ü"]), "dtype": rng.choice(["ivsample", "ivsample", "isc_voc", "ivcurve"])})
    opt = {}
    if cmd == "extract":
        opt = {"f": rng.choice([5, 7, 10]), "sep": rng.choice([";", ",", "\t"]), "raw": rng.random() < 0.3}
    elif cmd == "downsample":
        opt = rng.choice([{"f": 5}, {"f": 2}, {"r": 20_000}, {"r": 5_000}, {"r": 2_500}, {"r": 100_000}, {}])
        if rng.random() < 0.4:
            opt = {**opt, "s": rng.choice([0.01, 0.02]), "e": rng.choice([0.08, 0.09, 5.0])}
    elif cmd.startswith("plot"):
        opt = {"p": rng.random() < 0.5}
        if rng.random() < 0.4:
            opt = {**opt, "s": 0.01, "e": rng.choice([0.03, 0.08])}
        elif rng.random() < 0.5:  # beyond the end of the shorter ones
            opt = {**opt, "s": rng.choice([0.11, 0.15, 0.25])}
    elif cmd in ("extract-gpio", "extract-meta"):
        opt = {"sep": rng.choice([";", ","])}
    return {"cmd": cmd, "opt": opt, "files": files, "recurse": rng.random() < 0.5, "order": rng.randrange(1 << 30), "junk": rng.random() < 0.3,
            "eio": None if rng.random() < 0.6 else {"file": rng.randrange(4), "nth": rng.choice([0, 1, 2, rng.randrange(3, 40), rng.randrange(3, 200)])}}


def simplify(sc):
    if sc["eio"]:
        yield {**sc, "eio": None}
    for k, v in (("recurse", False), ("junk", False), ("opt", {})):
        if sc[k] != v:
            yield {**sc, k: v}
    for k, f in enumerate(sc["files"]):
        for key, v in (("kind", "ok"), ("gpio", False), ("log", False), ("sub", False), ("name", ""), ("dtype", "ivsample"), ("n", 10_000), ("step", 10_000)):
            if f[key] != v:
                fs = [dict(x) for x in sc["files"]]
                fs[k][key] = v
                yield {**sc, "files": fs}


def name_of(k, f):
    return ("sub/" if f["sub"] else "") + f"f{k}{f.get('name', '')}.h5"


def make(p, k, f):
    from shepherd_core import Writer

    p.parent.mkdir(parents=True, exist_ok=True)
    rs = np.random.RandomState(f["seed"])
    kind, n, step = f["kind"], f["n"], f["step"]
    with Writer(p, mode="harvester", datatype=f["dtype"], window_samples=100 if f["dtype"] == "ivcurve" else 0, verbose=False) as w:
        t = 1_700_000_000_000_000_000 + rs.randint(10**6) * 1000 + np.arange(n, dtype="u8") * step
        if kind == "jump":
            n = max(n, 20_000)
            t = t[0] + np.arange(n, dtype="u8") * step
            cut = 10_000 * (1 + int(f["at"] * (n // 10_000 - 1)))
            t[cut:] += np.uint64(7 * step * 1000)
        if kind != "no_samples":
            w.append_iv_data_raw(t, (3_000_000 + rs.randint(0, 1000, n)).astype("u4"), (40_000 + rs.randint(0, 500, n)).astype("u4"))
        if kind != "no_host":
            w.store_hostname(f"sheep{k}")
        h = w.h5file
        if f["gpio"] or kind.startswith("gpio"):
            g = h.create_group("gpio")
            ev = uart_events(f["text"], int(t[0]) + 2_000_000)
            bg = [(int(t[0]) + 100 + j * 7_001, (j % 2) << 3) for j in range(5)]
            allv, cur = [], {"u": 1, "b": 0}
            for ts, ch, v in sorted([(a, "u", b) for a, b in ev] + [(a, "b", b) for a, b in bg]):
                cur[ch] = v
                allv.append((ts, (cur["u"] << 2) | cur["b"]))
            if kind == "gpio_empty":
                allv = []
            g.create_dataset("time", data=np.array([a for a, _ in allv], "u8"), maxshape=(None,), chunks=(64,))
            d = g.create_dataset("value", data=np.array([b for _, b in allv], "u2"), maxshape=(None,), chunks=(64,))
            desc = {0: {"name": "gpio0"}, 2: {"name": "gpio_x" if kind == "gpio_no_uart" else "uart_tx"}, 3: {"name": "led"}}
            if kind == "gpio_desc_text":
                d.attrs["description"] = "just text"
            elif kind != "gpio_no_desc":
                d.attrs["description"] = yaml.safe_dump(desc)
        if f["log"] or kind in ("log_rot", "ts_missing"):
            g = h.create_group("sheep")
            m = 6
            if kind != "ts_missing":
                g["time"] = (int(t[0]) + np.arange(m) * 10**6).astype("u8")
            g.create_dataset("level", data=rs.choice([10, 30, 40], m).astype("u1"), chunks=(1,), compression=1)
            g.create_dataset("message", data=[f"msg {j}" for j in range(m)], dtype=h5py.string_dtype())
            g = h.create_group("ptp")
            g["time"] = (int(t[0]) + np.arange(m) * 10**6).astype("u8")
            g["time"].attrs["description"] = "time [ns]"
            for nm in ("offset",):
                g[nm] = rs.randint(-100, 100, m)
                g[nm].attrs["description"] = nm + " [ns]"
    b = p.read_bytes()
    if kind == "truncated":
        p.write_bytes(b[: int(len(b) * f["at"] * 0.99)])
    elif kind == "empty":
        p.write_bytes(b"")
    elif kind == "garbage":
        p.write_bytes(b"\x89HDF" + bytes(range(256)) * 9)
    elif kind.startswith("rot_"):
        rot_payload(p, "data/" + kind[4:], f["seed"])
    elif kind == "log_rot":
        rot_payload(p, "sheep/level", f["seed"])
    elif kind in BAD:
        with h5py.File(p, "r+") as h:
            if kind == "no_data":
                del h["data"]
            elif kind == "data_is_ds":
                del h["data"]
                h["data"] = np.arange(5)
            elif kind in ("no_time", "no_voltage", "no_current"):
                del h["data"][kind[3:]]
            elif kind == "no_mode":
                del h.attrs["mode"]
            elif kind == "bad_mode":
                h.attrs["mode"] = "sleeping"
            elif kind == "no_dtype":
                del h["data"].attrs["datatype"]
            elif kind == "bad_dtype":
                h["data"].attrs["datatype"] = "ivfoo"
            elif kind == "no_gain":
                del h["data/current"].attrs["gain"]
            elif kind == "text_gain":
                h["data/voltage"].attrs["gain"] = "broken"
            elif kind == "ivc_no_win":
                h["data"].attrs["datatype"] = "ivcurve"
                h["data"].attrs["window_samples"] = 0


def argv(cmd, target, opt, recurse):
    a = ["plot" if cmd == "plot-multi" else cmd, str(target)]
    if recurse:
        a.append("--recurse")
    if cmd == "plot-multi":
        a.append("--multiplot")
    m = {"f": "--ds-factor", "r": "--sample-rate", "s": "--start", "e": "--end", "sep": "--separator"}
    for k, v in opt.items():
        if k == "raw":
            a += ["--raw"] if v else []
        elif k == "p":
            a += ["--only-power"] if v else []
        else:
            a += [m[k], str(v)]
    if a[0] == "plot":
        a += ["--width", "2", "--height", "2"]
    return a


def listing(seed, salt):
    """Replace the directory listing of this process by one in an order the simulator chooses."""
    real_scan, real_list = os.scandir, os.listdir
    rng = random.Random(f"{seed}/{salt}")

    class Scan:
        def __init__(self, path="."):
            with real_scan(path) as it:
                self.items = sorted(it, key=lambda e: os.fspath(e.name))
            rng.shuffle(self.items)

        def __enter__(self):
            return self

        def __exit__(self, *_):
            pass

        def close(self):
            pass

        def __iter__(self):
            return iter(self.items)

        def __next__(self):
            if not self.items:
                raise StopIteration
            return self.items.pop(0)

    def lst(path="."):
        x = sorted(real_list(path))
        rng.shuffle(x)
        return x

    os.scandir, os.listdir = Scan, lst


def command(args, seed):
    import logging

    from shepherd_data.cli import cli

    logging.disable(logging.CRITICAL)
    listing(seed, "dir")
    try:
        cli.main(args, standalone_mode=False)
    except SystemExit as e:
        return int(e.code or 0) if isinstance(e.code, (int, type(None))) else 1
    return 0


def curves(args, seed):
    """What gets drawn: label and values of every curve."""
    import hashlib

    from matplotlib.axes import Axes

    real, seen = Axes.plot, []

    def plot(self, *a, **kw):
        lines = real(self, *a, **kw)
        seen.extend(f"{ln.get_label()} {hashlib.sha256(np.asarray(ln.get_ydata(), float).tobytes()).hexdigest()[:12]}" for ln in lines)
        return lines

    Axes.plot = plot
    return command(args, seed), sorted(seen)


def multiplot(sc, ctx, r, inside, names, before, bad_disk, drawn):
    """Every file that can be drawn alone is part of the common plot, with the same curves."""
    kinds = [sc["files"][k]["kind"] for k in inside]
    mp = [p.name for p in ctx.scratch.iterdir() if "multiplot" in p.name]
    want, maybe, n_draw = [], [], 0
    for k in inside:
        one = ctx.scratch / f"one{k}"
        one.mkdir()
        p = one / names[k].split("/")[-1]
        p.write_bytes(before[names[k]])
        ra = process(curves, argv("plot", p, sc["opt"], False), sc["order"])
        ctx.check(ra.status == "ok", "single-file-ended", lambda: f"plot {sc['opt']} on {sc['files'][k]['kind']}: {ra.value[:2] if ra.status == 'exc' else ra}")
        if k == bad_disk:
            maybe = ra.value[1]
        else:
            want += ra.value[1]
            n_draw += bool(ra.value[1])
            ctx.probe("range_beyond_recording", int(sc["files"][k]["kind"] == "ok" and not ra.value[1]))
        shutil.rmtree(one)
    extra = list(drawn)
    for c in want:
        ctx.check(c in extra, "multiplot-curve-missing", f"{sc['opt']} over {kinds}: {len(drawn)} curves drawn, {len(want)} expected")
        extra.remove(c)
    for c in maybe:
        if c in extra:
            extra.remove(c)
    ctx.check(not extra, "multiplot-curve-too-many", f"{sc['opt']} over {kinds}: {len(drawn)} curves drawn, {len(want)} expected")
    ctx.check(len(mp) == 1 or not n_draw, "multiplot-missing", f"{kinds}: {mp}")
    ctx.check(len(mp) <= 1, "multiplot-several", mp)
    ctx.probe("curves_compared", len(want))


def run(sc, ctx):
    cmd, opt = sc["cmd"], sc["opt"]
    root = ctx.scratch / "batch"
    files = sc["files"]
    names = [name_of(k, f) for k, f in enumerate(files)]
    root.mkdir()
    for k, f in enumerate(files):
        make(root / names[k], k, f)
    if sc["junk"]:
        (root / "note.txt").write_text("no recording")
        (root / "dir.h5").mkdir()
    before = snap(root)
    inside = [k for k, f in enumerate(files) if sc["recurse"] or not f["sub"]]
    eio = sc["eio"]
    bad_disk = None
    plan, froot = [], None
    if eio and inside:
        bad_disk = inside[eio["file"] % len(inside)]
        froot = root / names[bad_disk]
        plan = [{"kind": "errno", "ops": ["read"], "nth": eio["nth"], "count": -1, "arg": "EIO"}]
    r = process(curves if cmd == "plot-multi" else command, argv(cmd, root, opt, sc["recurse"]), sc["order"], root=froot, plan=plan)
    drawn = []
    if cmd == "plot-multi" and r.status == "ok":
        r.value, drawn = r.value
    ctx.absorb(r)
    hit = any(n for _, n in r.fired)
    if bad_disk is not None and not hit:
        bad_disk = None
    ctx.ev(cmd, sorted(opt.items()), [f["kind"] for f in files], r.status, r.value if r.status == "ok" else "")
    kinds = [files[k]["kind"] for k in inside]
    if any(x in BAD for x in kinds) or hit:
        ctx.probe("damaged_in_batch")
    ctx.check(r.status == "ok", "batch-ended", lambda: f"{cmd} {opt} over {kinds}: {r.value[:2] if r.status == 'exc' else r}\n{r.value[2][-1200:] if r.status == 'exc' else ''}")
    after = snap(root)
    for nm, b in before.items():
        ctx.check(after.get(nm) == b and nm in after, "input-changed", nm)
    new = {nm: b for nm, b in after.items() if nm not in before}
    ctx.state(cmd, sorted(opt), kinds, r.value, len(new), hit)
    if cmd == "validate":
        bad = [k for k in inside if files[k]["kind"] in BAD + ["jump"] and not files[k]["kind"] in ("rot_voltage", "rot_current")] + ([bad_disk] if bad_disk is not None else [])
        if bad_disk is not None and files[bad_disk]["log"]:
            # reads may have failed while looking into the log only, which is no reason for a rejection
            bad.remove(bad_disk)
            unclear_disk = [bad_disk]
        else:
            unclear_disk = []
        unclear = unclear_disk + [k for k in inside if files[k]["kind"] in ("no_samples", "log_rot", "ts_missing", "rot_voltage", "rot_current")]
        ctx.check(not new, "validate-writes-files", list(new))
        if bad:
            ctx.check(r.value != 0, "validate-accepts-bad-file", f"{kinds} (unreadable: {bad_disk}) -> exit 0")
            ctx.probe("validate_rejects")
        elif not unclear:
            ctx.check(r.value == 0, "validate-rejects-good-files", f"{kinds} -> exit {r.value}")
            ctx.probe("validate_accepts")
        return
    ctx.check(r.value == 0, "batch-exit-status", f"{cmd} over {kinds} -> {r.value}")
    if cmd == "plot-multi" and len(inside) > 1:
        ctx.probe("multiplot")
        ctx.check(not new, "multiplot-writes-into-directory", list(new))
        multiplot(sc, ctx, r, inside, names, before, bad_disk, drawn)
        return
    claimed = set()
    for k in inside:
        one = ctx.scratch / f"one{k}"
        p = one / names[k].split("/")[-1]
        one.mkdir()
        p.write_bytes(before[names[k]])
        ra = process(command, argv(cmd, p, opt, False), sc["order"])
        ctx.check(ra.status == "ok", "single-file-ended", lambda: f"{cmd} {opt} on {files[k]['kind']}: {ra.value[:2] if ra.status == 'exc' else ra}")
        alone = {nm: b for nm, b in snap(one).items() if nm != p.name}
        pre = names[k][:-2]  # "f0."
        got = {nm.split("/")[-1]: b for nm, b in new.items() if nm.startswith(pre)}
        claimed |= {nm for nm in new if nm.startswith(pre)}
        if k == bad_disk:
            continue
        ctx.check(sorted(got) == sorted(alone), "outputs-differ-from-alone", f"{cmd} {opt} over {kinds}: file {names[k]} ({files[k]['kind']}, step {files[k]['step']}) gave {sorted(got)}, alone {sorted(alone)}")
        for nm, b in alone.items():
            ctx.check(equal(nm, got[nm], b, ctx), "content-differs-from-alone", f"{cmd} {opt} over {kinds}: {nm}")
            ctx.probe("outputs_compared")
        if files[k]["kind"] in ("ok", "jump"):
            expect(ctx, cmd, opt, files[k], alone)
        shutil.rmtree(one)
    ctx.check(set(new) == claimed, "unexpected-outputs", sorted(set(new) - claimed))


def expect(ctx, cmd, opt, f, out):
    """An intact recording has outputs at all."""
    n = {"extract": 2, "extract-meta": 1 + (2 if f["log"] else 0), "extract-gpio": 3 if f["gpio"] else 0, "extract-uart": 1 if f["gpio"] else 0, "plot": 1, "plot-multi": 1}.get(cmd)
    if cmd == "extract" and (f["n"] if f["kind"] != "jump" else 20_000) < 1000 * opt.get("f", 1000):
        return
    dur = (max(f["n"], 20_000) if f["kind"] == "jump" else f["n"]) * f["step"] * 1e-9
    if cmd.startswith("plot") and f["kind"] == "ok" and opt.get("s", 0) > dur:
        n = 0
        ctx.probe("range_beyond_recording")
    elif cmd.startswith("plot") and (f["kind"] != "ok" or opt.get("s", 0) > dur - 0.02):
        n = None if "s" in opt else n
    if n is not None and cmd != "extract":
        ctx.check(len(out) == n, "intact-file-output-count", f"{cmd}: {sorted(out)} (expected {n} files)")


def equal(nm, a, b, ctx):
    if a == b:
        return True
    if nm.endswith(".h5") and a and b:
        pa, pb = ctx.scratch / "a.h5", ctx.scratch / "b.h5"
        pa.write_bytes(a)
        pb.write_bytes(b)
        with h5py.File(pa, "r") as x, h5py.File(pb, "r") as y:
            for ds in ("time", "voltage", "current"):
                if not np.array_equal(x["data"][ds][:], y["data"][ds][:]):
                    return False
            return sorted(x.attrs) == sorted(y.attrs) and all(x.attrs[q] == y.attrs[q] for q in x.attrs) and x["data"].attrs["datatype"] == y["data"].attrs["datatype"]
    return False
