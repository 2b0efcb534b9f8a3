"""C20: inventories of a simulated fleet whose clocks, interfaces, packages and helper programs misbehave."""

from __future__ import annotations

import csv
import os
import platform
import socket
import subprocess
import sys
import time
import types
from contextlib import ExitStack
from datetime import datetime
from pathlib import Path
from unittest import mock

from .. import sim
from ..sim import WRITE_FAULTS, gen_fault, place, process

RUNS = {"quick": 8000, "thorough": 80000}
RULE = (
    "a seeded fleet of hosts, each with its own clock (before boot, just booted, long running, ticking fast, stepped during the collection), interfaces, packages and helper "
    "programs (absent, odd output, failing, slow, hanging, refused by the system) is inventoried; inventories travel as files or objects and are compared. Expected facts are "
    "derived from the simulated hosts."
)
REAL = ["inventory (System, Python, Target, Inventory, InventoryList)", "pydantic models, yaml files", "subprocess.run on simulated processes"]
STUB = ["psutil's two queries, platform / socket host facts, helper processes (Popen), wall clock and presence of helper programs through libsim"]
SHRINK = ["hosts"]
STATE_MEASURE = "hash of (clock situation, helper behaviours, kinds of interfaces, set of warnings)"
MUST_HIT = ["before_boot", "just_booted", "clock_stepped", "no_psutil", "helper_hang", "helper_refused", "helper_odd", "iface_v6_between", "iface_mac_only", "warn_uptime", "warn_delta", "warn_package", "same_hostname", "other_zone", "several_affected", "package_missing", "package_broken", "csv_disturbed", "single_host"]

HELPERS = {"/usr/bin/df": "fs_root", "/usr/bin/beagle-version": "beagle", "/usr/sbin/ptp4l": "ptp"}
PACKAGES = ["h5py", "numpy", "pydantic", "shepherd_core", "shepherd_sheep", "yaml", "zstandard"]
NS = 1_000_000_000


def gen_helper(rng):
    k = rng.choice(["absent", "absent", "ok", "ok", "ok", "odd", "fail", "slow", "hang", "ENOEXEC", "EACCES", "ENOENT", "ENOMEM", "killed", "empty"])
    return {"k": k, "lines": [f"val{rng.randrange(1000)} part{rng.randrange(9)}" for _ in range(rng.randrange(1, 5))], "odd": rng.choice(["latin", "nul", "quotes", "crlf", "comma"]), "dur": rng.choice([1, 20, 29])}


def gen_iface(rng):
    return {"v4": rng.choice([0, 1, 1, 2]), "v6": rng.choice([0, 0, 1, 2]), "mac": int(rng.random() < 0.85), "order": rng.choice(["linux", "linux", "windows", "mixed"]), "seed": rng.randrange(1 << 16)}


def gen_host(rng):
    sit = rng.choice(["normal", "normal", "normal", "long", "edge", "booted", "before", "fast"])
    up = {"normal": rng.randrange(100, 100_000), "long": rng.randrange(108_010, 10_000_000), "edge": rng.choice([107_998, 107_999, 108_000, 108_001, 108_002]), "booted": rng.choice([0, 0.3, 1]), "before": -rng.choice([0.6, 1, 5, 1000, 10**9]), "fast": rng.randrange(100, 200_000)}[sit]
    return {
        "name": rng.randrange(6), "sit": sit, "up": up, "off": rng.choice([0, 0, 0, 1, 9, 9.9, 10, 10.1, 11, 3600, -3, -11]), "tick": 200_000_000 if sit == "fast" else rng.choice([0, 1000, 10**6]),
        "jumps": [[rng.randrange(0, 6), rng.choice([-3600, -1, 1, 12, 10**6]) * NS]] if rng.random() < 0.2 else [],
        "psutil": rng.random() < 0.85, "ifs": [gen_iface(rng) for _ in range(rng.randrange(0, 4))], "helpers": {h: gen_helper(rng) for h in HELPERS},
        "pkg": {p: rng.choice(["real", "real", "real", "real", "old", "missing", "noversion", "local", "broken"]) for p in PACKAGES} if rng.random() < 0.6 else {},
        "via": rng.choice(["object", "yaml", "yaml", "dict"]), "tz": rng.choice(["UTC", "UTC", "Europe/Berlin", "America/New_York", "Asia/Kathmandu"]),
    }


def gen(rng, tier, i):
    n = rng.choice([1, 2, 2, 3, 4, 6])
    hosts = [gen_host(rng) for _ in range(n)]
    if rng.random() < 0.8:
        for k, h in enumerate(hosts):
            h["name"] = k
    return {"base": rng.choice([1_700_000_000, 1_720_000_000, 5_000_000, 4_000_000_000]), "hosts": hosts, "csv": {"to": rng.choice(["file", "dir", "old"]), "fault": gen_fault(rng, WRITE_FAULTS) if rng.random() < 0.4 else None}}


def warm():
    import psutil  # noqa: F401
    import shepherd_core.inventory  # noqa: F401

    shepherd_core.inventory.PythonInventory.collect()


NAMES = ["sheepA", "sheepB", "observer-7x", "node.local", "böck", "qbone1"]


class Fleet:
    """Everything a host would tell the collecting process."""

    def __init__(self, h, base, scratch):
        self.h = h
        self.name = NAMES[h["name"]]
        self.now = int((base + h["off"]) * NS)
        self.boot = base + h["off"] - h["up"]
        self.started = []
        self.ifs = {}
        for k, f in enumerate(h["ifs"]):
            v4 = [types.SimpleNamespace(family=socket.AF_INET, address=f"10.{k}.{f['seed'] % 250}.{j}", netmask=None, broadcast=None, ptp=None) for j in range(f["v4"])]
            v6 = [types.SimpleNamespace(family=socket.AF_INET6, address=f"fe80::{f['seed']:x}:{k}:{j}%eth{k}", netmask=None, broadcast=None, ptp=None) for j in range(f["v6"])]
            mac = [types.SimpleNamespace(family=socket.AF_PACKET, address=f"02:00:00:{k:02x}:{f['seed'] >> 8:02x}:{f['seed'] & 255:02x}", netmask=None, broadcast=None, ptp=None)] if f["mac"] else []
            seq = {"linux": v4 + v6 + mac, "windows": mac + v4 + v6, "mixed": v6 + mac + v4}[f["order"]]
            if seq:
                self.ifs[f"eth{k}"] = seq
        self.scratch = scratch

    def output(self, path):
        p = self.h["helpers"][path]
        text = "\n".join(p["lines"]) + "\n"
        raw = text.encode()
        if p["k"] == "odd":
            raw = {"latin": raw + b"caf\xe9 \xff\n", "nul": raw + b"\0\0\n", "quotes": raw + b"it's \"x\"\n", "crlf": text.replace("\n", "\r\n").encode(), "comma": raw + b"a, b,, c\n"}[p["odd"]]
        if p["k"] == "empty":
            raw = b""
        return raw


def refuse(name, broken):
    if name in broken:
        raise ImportError(f"{name}: library is missing")


class Stuck(BaseException):
    pass


def make_popen(fleet, ctx):
    import errno

    class FakePopen:
        def __init__(self, args, *a, **kw):
            self.args = args
            cmd = [args] if isinstance(args, (str, Path)) else list(args)
            path = str(cmd[0]).split()[0]
            self.plan = fleet.h["helpers"].get(path)
            if self.plan is None:
                raise FileNotFoundError(2, "No such file", path)
            k = self.plan["k"]
            if k in ("ENOEXEC", "EACCES", "ENOENT", "ENOMEM", "absent"):
                ctx.fault("helper_" + k)
                ctx.probe("helper_refused")
                e = getattr(errno, k if k != "absent" else "ENOENT")
                raise OSError(e, "simulated", path)
            self.path, self.kw = path, kw
            self.returncode = None
            self.killed = False
            self.stdin = self.stdout = self.stderr = None
            self.pid = 99999
            fleet.started.append(self)

        def _text(self, b):
            if self.kw.get("text") or self.kw.get("universal_newlines") or self.kw.get("encoding"):
                return b.decode(self.kw.get("encoding") or "utf-8", self.kw.get("errors") or "strict")
            return b

        def __enter__(self):
            return self

        def __exit__(self, *_):
            self.wait()

        def communicate(self, input=None, timeout=None):  # noqa: A002
            k = self.plan["k"]
            if k == "hang" and not self.killed:
                ctx.fault("helper_hang")
                ctx.probe("helper_hang")
                if timeout is None:
                    raise Stuck(f"{self.path} without a time limit")
                sim.clock_set(sim.clock_now() + int(timeout * NS))
                raise subprocess.TimeoutExpired(self.args, timeout, output=fleet.output(self.path))
            if k == "slow" and not self.killed:
                ctx.fault("helper_slow")
                d = self.plan["dur"]
                sim.clock_set(sim.clock_now() + int(min(d, d if timeout is None else timeout) * NS))
                if timeout is not None and d > timeout:
                    raise subprocess.TimeoutExpired(self.args, timeout)
            self.returncode = {"fail": 1, "killed": -9}.get(k, 0)
            if k in ("fail", "killed", "odd", "empty"):
                ctx.fault("helper_" + k)
            if k == "odd":
                ctx.probe("helper_odd")
            out = fleet.output(self.path)
            if k == "killed":
                out = out[: len(out) // 2]
            return self._text(out), self._text(b"")

        def wait(self, timeout=None):
            if self.returncode is None:
                if self.plan["k"] == "hang" and not self.killed:
                    if timeout is None:
                        raise Stuck(f"waiting for {self.path} without a time limit")
                    sim.clock_set(sim.clock_now() + int(timeout * NS))
                    raise subprocess.TimeoutExpired(self.args, timeout)
                self.returncode = -9 if self.killed else 0
            return self.returncode

        def poll(self):
            return self.returncode

        def kill(self):
            self.killed = True

        terminate = kill

        def send_signal(self, _):
            self.killed = True

    return FakePopen


def run(sc, ctx):
    import psutil
    from shepherd_core.inventory import Inventory, InventoryList, PythonInventory, SystemInventory
    from shepherd_core.inventory import system as sysmod

    root = ctx.scratch / "d"
    root.mkdir()
    present = ctx.scratch / "present"
    present.write_text("#!/bin/sh\n")
    present.chmod(0o755)
    elements, fleets, versions = [], [], []
    for nr, h in enumerate(sc["hosts"]):
        fl = Fleet(h, sc["base"], ctx.scratch)
        why = f"host {nr} {fl.name}"
        ctx.probe("before_boot", int(h["sit"] == "before"))
        ctx.probe("just_booted", int(h["sit"] == "booted"))
        ctx.probe("clock_stepped", int(bool(h["jumps"])))
        ctx.probe("no_psutil", int(not h["psutil"]))
        if h["jumps"]:
            ctx.fault("clock_step")
        if h["sit"] == "before":
            ctx.fault("clock_before_boot")
        saved = {}
        expect_ver = {}
        broken = set()
        try:
            with ExitStack() as st:
                for fn, val in (("node", fl.name), ("system", "Linux"), ("release", f"5.{nr}"), ("version", "#1 SMP"), ("machine", "armv7l"), ("processor", "")):
                    st.enter_context(mock.patch.object(platform, fn, lambda v=val: v))
                st.enter_context(mock.patch.object(socket, "gethostname", lambda: fl.name))
                st.enter_context(mock.patch.object(subprocess, "Popen", make_popen(fl, ctx)))
                if h["psutil"]:
                    st.enter_context(mock.patch.object(psutil, "net_if_addrs", lambda: {k: list(v) for k, v in fl.ifs.items()}))
                    st.enter_context(mock.patch.object(psutil, "boot_time", lambda: fl.boot))
                else:
                    st.enter_context(mock.patch.object(sysmod, "psutil", None, create=True))
                for p in PACKAGES:
                    mode = h["pkg"].get(p, "real")
                    saved[p] = sys.modules.get(p, saved)
                    if p == "shepherd_sheep" and mode == "real":
                        mode = "missing" if not h["pkg"] else "sheep"
                    if mode == "missing":
                        sys.modules[p] = None
                        ctx.probe("package_missing")
                    elif mode == "broken":  # is there, but one of its own parts is not
                        sys.modules.pop(p, None)
                        broken.add(p)
                        ctx.probe("package_broken")
                    elif mode in ("old", "noversion", "sheep", "local"):
                        m = types.ModuleType(p)
                        if mode != "noversion":
                            m.__version__ = {"old": "0.0.1", "local": f"2024.1+build{nr}"}.get(mode, "2024.1")
                            expect_ver[p] = m.__version__
                        sys.modules[p] = m
                    else:
                        expect_ver[p] = sys.modules[p].__version__ if p in sys.modules else __import__(p).__version__
                finder = types.SimpleNamespace(find_spec=lambda name, path=None, target=None: refuse(name, broken))
                st.enter_context(mock.patch.object(sys, "meta_path", [finder, *sys.meta_path]))
                st.enter_context(mock.patch.dict(os.environ, {"TZ": h.get("tz", "UTC")}))
                time.tzset()
                for hp in HELPERS:
                    sim.redirect(hp, present if h["helpers"][hp]["k"] != "absent" else ctx.scratch / "absent")
                sim.clock(fl.now, h["tick"], h["jumps"])
                err = inv = None
                try:
                    inv = Inventory.collect()
                except Stuck as e:
                    err = e
                except Exception as e:  # noqa: BLE001
                    err = e
                end, reads = sim.clock_now(), sim.clock_reads()
        finally:
            sim.clock_off()
            sim.redirect(None, None)
            time.tzset()
            for p, m in saved.items():
                if m is saved:
                    sys.modules.pop(p, None)
                else:
                    sys.modules[p] = m
        kinds = {p: x["k"] for p, x in h["helpers"].items()}
        if isinstance(err, Stuck):
            ctx.check(False, "hangs", f"{why}: {err}")
        ctx.check(err is None, "collection-fails", lambda: f"{why} ({h['sit']}, up {h['up']}, psutil {h['psutil']}, helpers {kinds}, ifs {h['ifs']}, pkg {h['pkg']}): {type(err).__name__}: {err}")
        ctx.check(all(p.returncode is not None or p.killed for p in fl.started), "helper-left-running", lambda: f"{why}: {[p.path for p in fl.started]}")
        # clock: every value that could be read lies in this range
        offs, acc = [0], 0
        for _, by in h["jumps"]:
            acc += by
            offs.append(acc)
        span = reads * h["tick"] + 95 * NS * int(any(k in ("hang", "slow") for k in kinds.values()))
        lo, hi = fl.now + min(offs), max(fl.now + max(offs) + span, end)
        ts = inv.created.timestamp() * NS
        ctx.check(lo - 2000 <= ts <= hi + 2000 and inv.created == inv.timestamp, "wrong-timestamp", lambda: f"{why}: {inv.created} outside {lo}..{hi}")
        # the timestamp is taken before helpers run
        if not h["jumps"]:
            ctx.check(ts <= fl.now + reads * h["tick"] + 2000, "late-timestamp", lambda: f"{why}: {inv.created}, collection began at {datetime.fromtimestamp(fl.now / NS)}")
        if h["psutil"]:
            u0, u1 = max(0.0, lo / NS - fl.boot), max(0.0, hi / NS - fl.boot)
            ctx.check(u0 - 1 <= inv.uptime <= u1 + 1, "wrong-uptime", lambda: f"{why}: {inv.uptime} outside {u0}..{u1}")
        ctx.check(inv.hostname == fl.name and inv.release == f"5.{nr}", "wrong-host", lambda: f"{why}: {inv.hostname}")
        if h["psutil"]:
            for name, seq in fl.ifs.items():
                ips = [a.address for a in seq if a.family != socket.AF_PACKET]
                macs = [a.address for a in seq if a.family == socket.AF_PACKET]
                got = inv.interfaces.get(name)
                if ips and macs:
                    ctx.probe("iface_v6_between", int([a.family for a in seq] == sorted(a.family for a in seq) and len(ips) > 1))
                    ctx.check(got is not None and len(got) == 2 and got[0] in ips and got[1] == macs[0], "wrong-interface", lambda: f"{why}: {name} has {ips} and {macs}, reported {got}")
                else:
                    ctx.probe("iface_mac_only", int(not ips))
                    if got is not None:
                        ctx.check(all(x in (None, "") or x in ips + macs for x in got), "wrong-interface", lambda: f"{why}: {name} {got}")
            ctx.check(set(inv.interfaces) <= set(fl.ifs), "invented-interface", lambda: f"{why}: {inv.interfaces}")
        for hp, field in HELPERS.items():
            k = kinds[hp]
            v = getattr(inv, field)
            text = v if isinstance(v, str) else "\n".join(v or [])
            if k in ("ok", "slow", "odd"):
                for ln in h["helpers"][hp]["lines"]:
                    ctx.check(ln in text, "helper-output-lost", lambda: f"{why}: {field} = {v!r} lacks {ln!r}")
            elif k in ("absent", "ENOENT", "EACCES", "ENOEXEC", "ENOMEM"):
                ctx.check("val" not in text, "invented-output", lambda: f"{why}: {field} = {v!r}")
        for p in PACKAGES:
            ctx.check(getattr(inv, p) == expect_ver.get(p), "wrong-version", lambda: f"{why}: {p} {getattr(inv, p)} != {expect_ver.get(p)}")
        if h["via"] == "yaml":
            f = inv.to_file(root / f"inv{nr}.yaml")
            back = Inventory.from_file(f)
        elif h["via"] == "dict":
            back = Inventory(**inv.model_dump())
        else:
            back = inv

        def flat(m):
            d = m.model_dump()
            d["interfaces"] = {k: list(v) for k, v in d["interfaces"].items()}
            return d

        ctx.check(flat(back) == flat(inv), "inventory-changes-in-transit", lambda: f"{why}: {[(k, v, flat(back)[k]) for k, v in flat(inv).items() if flat(back)[k] != v]}")
        elements.append(back)
        fleets.append(fl)
        versions.append({**expect_ver, "python": platform.python_version()})
        ctx.state(h["sit"], sorted(kinds.values()), [(f["v4"] > 0, f["v6"] > 0, f["mac"], f["order"]) for f in h["ifs"]], h["psutil"], bool(h["jumps"]))
        ctx.ev("collect", nr, h["sit"], sorted(kinds.values()))
    del PythonInventory, SystemInventory
    try:
        inl = InventoryList(elements=elements)
        got = inl.warn()
    except Exception as e:  # noqa: BLE001
        import traceback

        ctx.check(False, "comparison-fails", f"{[f.name for f in fleets]}: {traceback.format_exc()[-600:]}")
    first = min(e.created for e in elements)
    up = {e.hostname for e in elements if e.uptime > 30 * 3600}
    late = {e.hostname for e in elements if (e.created - first).total_seconds() > 10}
    pk = {p for p in [*PACKAGES, "python"] if len({v[p] for v in versions if p in v}) > 1}
    names = [e.hostname for e in elements]
    ctx.probe("same_hostname", int(len(set(names)) < len(names)))
    ctx.probe("single_host", int(len(names) == 1))
    ctx.probe("other_zone", int(len({e.created.utcoffset() for e in elements}) > 1))
    ctx.probe("warn_uptime", int(bool(up)))
    ctx.probe("warn_delta", int(bool(late)))
    ctx.probe("warn_package", int(bool(pk)))
    ctx.probe("several_affected", int(len(up) > 1 or len(late) > 1))
    want = ({"uptime"} if up else set()) | ({"time_delta"} if late else set()) | pk
    known = {"uptime", "time_delta", "python", *PACKAGES}
    facts = [(e.hostname, e.uptime, str(e.created)) for e in elements]
    ctx.check(set(got) & known == want, "wrong-warnings", lambda: f"warned about {sorted(got)}, expected {sorted(want)}: {facts} {versions}")
    for key, hosts in (("uptime", up), ("time_delta", late)):
        if hosts:
            for n in set(names):
                ctx.check((n in str(got[key])) == (n in hosts), "wrong-hosts-blamed", lambda: f"{key}: {got[key]!r}, affected are {sorted(hosts)}: {facts}")
    for p in pk:
        for n, v in zip(names, versions):
            if p in v:
                ctx.check(n in str(got[p]) and v[p] in str(got[p]), "host-not-listed", lambda: f"{p}: {got[p]!r} lacks {n} {v[p]}")
    # csv
    c = sc["csv"]
    other = root / "inventory.yaml"
    inl.to_file(other)
    keep = other.read_bytes()
    if c["to"] == "dir":
        tgt = root
    else:
        tgt = root / "fleet.csv"
    old = None
    if c["to"] == "old":
        old = b"old, list\r\n"
        tgt.write_bytes(old)
    before = {p.name for p in root.iterdir()}

    def job():
        inl.to_csv(tgt)

    def out():
        if c["to"] != "dir":
            return tgt
        new = sorted(p for p in root.iterdir() if p.name not in before and not p.name.startswith("."))
        return new[0] if new else root / "none"

    if c["fault"] is not None:
        dry = process(job, root=root)
        want_csv = out().read_bytes() if out().is_file() else None
        ctx.check(other.read_bytes() == keep, "export-overwrites-another-file", lambda: f"{other.name}")
        if c["to"] != "old":
            out().unlink(missing_ok=True)
        else:
            tgt.write_bytes(old)
        r = process(job, root=root, plan=[place(c["fault"], dry.ops)])
        ctx.absorb(r)
        ctx.probe("csv_disturbed", int(bool(r.fired)))
        now = out().read_bytes() if out().is_file() else None
        ctx.check(now in (old, want_csv), "torn-csv", lambda: f"{c}: {r}: {now!r:.200}")
        if r.status == "ok":
            ctx.check(now == want_csv, "acknowledged-but-incomplete", lambda: f"{c}: {r}: {now!r:.200}")
    r = process(job)
    ctx.check(r.status == "ok", "export-fails", lambda: f"{c}: {r}")
    ctx.check(other.read_bytes() == keep, "export-overwrites-another-file", lambda: f"{other.name}")
    with out().open(newline="", encoding="utf-8") as fd:
        rows = list(csv.reader(fd, skipinitialspace=True))
    rows = [x for x in rows if x]
    ctx.check(len(rows) == 1 + len(elements), "wrong-number-of-rows", lambda: f"{len(rows)} rows for {len(elements)} hosts")
    head = rows[0]
    ctx.check(set(head) == set(type(elements[0]).model_fields), "fields-missing", lambda: f"{head}")
    for e, row in zip(elements, rows[1:]):
        ctx.check(len(row) == len(head), "row-with-other-fields", lambda: f"{e.hostname}: {len(row)} fields, header has {len(head)}: {row}")
        d = dict(zip(head, row))
        for k in ("hostname", "uptime", "release", "version", "python", "numpy", "h5py", "shepherd_sheep", "ptp"):
            v = getattr(e, k)
            ctx.check(d[k] == ("" if v is None else str(v)), "wrong-field", lambda: f"{e.hostname}: {k} = {d[k]!r}, should be {v!r}")
    ctx.state(sorted(want), len(names), c["to"], (c["fault"] or {}).get("k"))
    ctx.ev("fleet", sorted(want), len(rows))


def simplify(sc):
    import copy

    if sc["csv"]["fault"] is not None:
        yield {**copy.deepcopy(sc), "csv": {"to": sc["csv"]["to"], "fault": None}}
    for k, h in enumerate(sc["hosts"]):
        for key, v in (("ifs", []), ("jumps", []), ("pkg", {}), ("tick", 0), ("off", 0), ("via", "object"), ("psutil", True), ("sit", "normal")):
            if h[key] != v:
                s = copy.deepcopy(sc)
                s["hosts"][k][key] = v
                if key == "sit":
                    s["hosts"][k]["up"] = 1000
                yield s
        for hp in HELPERS:
            if h["helpers"][hp]["k"] != "absent":
                s = copy.deepcopy(sc)
                s["hosts"][k]["helpers"][hp]["k"] = "absent"
                yield s
