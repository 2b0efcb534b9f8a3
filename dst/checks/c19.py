"""C19: firmware on its way from the build to the target: embedded, transferred over lossy links, patched and extracted on failing disks."""

from __future__ import annotations

import base64
import json
import logging
import os
import pickle
import random
import struct
import sys
import types
from pathlib import Path

from ..sim import WRITE_FAULTS, gen_fault, place, process

RUNS = {"quick": 2500, "thorough": 30000}
RULE = (
    "seeded firmwares (hex for both mcu, generated elf: arm / msp430, both byte orders, several segments, the ID symbol at seeded places or missing) are embedded or "
    "referenced, transferred as yaml / json / python object / wrapper with flipped, lost, doubled or zeroed blocks, extracted to new, existing, nested places, "
    "patched with seeded IDs and converted by a helper process that is missing, fails, dies half way or lies; writes meet full disks, errors, process death at any system "
    "call. Destinations are compared with the original bytes."
)
REAL = ["fw_tools (converter, patcher, validation, converter_elf)", "Firmware, Wrapper, to_file / from_file", "pwntools' ELF (its unused network modules 'socks' and 'serial' are empty stand-ins)", "zstandard, intelhex, real objcopy", "real file system and processes"]
STUB = ["failing helper processes (scripts)", "disk completion and process death through libsim", "transport (the simulator damages what is transferred)"]
SHRINK = ["ops"]
STATE_MEASURE = "hash of (kind of firmware, operation, fault, outcome)"
MUST_HIT = ["hex", "elf", "big_endian", "embedded", "referenced", "damaged_refused", "damage_harmless", "patched", "patched_inplace", "no_symbol", "bss_symbol", "disturbed", "process_died", "helper_failed", "existing_destination", "dotted_names", "same_size", "hash_damaged", "reference_changed", "reference_lost", "task_programmed"]


def warm() -> None:
    for n in ("socks", "serial"):
        if n not in sys.modules:
            m = types.ModuleType(n)
            m.__getattr__ = lambda a: type(a, (), {}) if not a.startswith("__") else (_ for _ in ()).throw(AttributeError(a))
            sys.modules[n] = m
    import shepherd_core.data_models  # noqa: F401
    from shepherd_core.fw_tools import patcher

    if patcher.ELF is None:
        raise RuntimeError(patcher.elf_error_text)
    logging.getLogger("pwnlib").setLevel(logging.CRITICAL)


NAMES = ["fw", "build.v2", "build.v1", "build", "fw 1.2", "fw 1.3", "node", "node.rev2024", "demo.hex", "app.elf", "a-b_c", "a.b.c", "a.b.d"]


def gen_op(rng):
    r = rng.random()
    if r < 0.3:
        return {"op": "transfer", "via": rng.choice(["yaml", "yaml", "json", "pickle", "dict", "wrapper"]), "dmg": None if rng.random() < 0.35 else {"k": rng.choice(["flip", "flip", "hash", "cut", "insert", "double", "zero", "swap", "pad"]), "pos": rng.random(), "len": rng.choice([1, 4, 40, 400]), "seed": rng.randrange(1 << 20)}}
    if r < 0.55:
        return {"op": "extract", "to": rng.choice(["dir", "file", "old", "old", "deep", "suffix"]), "fault": gen_fault(rng, WRITE_FAULTS) if rng.random() < 0.7 else None, "ref": rng.random() < 0.4, "src": rng.choice(["same", "same", "same", "changed", "lost"]), "api": rng.random() < 0.3, "size": rng.random() < 0.5}
    if r < 0.8:
        return {"op": "patch", "id": rng.choice([0, 1, 255, 256, 0xCAFE, 65535, rng.randrange(65536), -1, 65536]), "over": rng.random() < 0.5, "fault": gen_fault(rng, WRITE_FAULTS) if rng.random() < 0.7 else None, "old": rng.random() < 0.3, "uid": rng.random() < 0.3}
    if r < 0.87:
        return {"op": "task", "id": rng.choice([None, 0, 1, 255, 256, 65535, rng.randrange(65536), 65536]), "ref": rng.random() < 0.35, "src": rng.choice(["same", "same", "changed"]), "to": rng.choice(["dir", "dir", "file"]), "via": rng.choice(["yaml", "json", "none"])}
    if r < 0.94:
        return {"op": "hex", "helper": rng.choice(["ok", "ok", "missing", "fail", "fail_partial", "killed_partial", "lies"]), "old": rng.random() < 0.5, "conv": rng.random() < 0.4}
    return {"op": "names", "pick": [rng.randrange(len(NAMES)) for _ in range(4)]}


def gen(rng, tier, i):
    return {
        "kind": rng.choice(["hex_nrf", "hex_msp", "elf_arm", "elf_arm", "elf_msp", "elf_be"]), "size": rng.choice([4, 60, 700, 5000, 40_000]), "seed": rng.randrange(1 << 30), "sym": rng.choice(["text", "text", "data", "data", "data", "bss", "none"]), "where": rng.choice(["start", "end", "mid", "mid"]),
        "name": rng.choice(NAMES), "embed": rng.random() < 0.75, "ops": [gen_op(rng) for _ in range(rng.randrange(1, 6))],
    }


def make_hex(sc):
    r = random.Random(sc["seed"])
    msp = sc["kind"] == "hex_msp"
    lines, mem = [], {}

    def rec(addr, typ, data):
        b = bytes([len(data), addr >> 8 & 255, addr & 255, typ]) + data
        lines.append(":" + (b + bytes([-sum(b) & 255])).hex().upper())

    start = 0x4000 if msp else r.choice([0, 0x1000, 0x26000])
    n = min(sc["size"], 30_000)
    addr, hi = start, 0
    while addr < start + n:
        if addr >> 16 != hi:
            hi = addr >> 16
            rec(0, 4, struct.pack(">H", hi))
        k = min(16, start + n - addr, 0x10000 - (addr & 0xFFFF))
        rec(addr & 0xFFFF, 0, r.randbytes(k))
        addr += k
    if msp:
        rec(0xFFFE, 0, struct.pack("<H", 0x4400))
    rec(0, 1, b"")
    del mem
    return ("\n".join(lines) + r.choice(["\n", ""])).encode()


def make_elf(sc):
    """(bytes, file offset of the ID symbol or None, {load address: byte})."""
    r = random.Random(sc["seed"])
    be = sc["kind"] == "elf_be"
    e = ">" if be else "<"
    msp = sc["kind"] == "elf_msp"
    n = max(16, min(sc["size"], 40_000 if not msp else 20_000)) // 4 * 4
    text = r.randbytes(n)
    data = r.randbytes(max(16, n // 8) // 4 * 4)
    if msp:
        segs = [(0x4000, 0x4000, text, 5), (0x1C00, 0x4000 + n, data, 6), (0xFFFE, 0xFFFE, struct.pack("<H", 0x4000), 4)]
    else:
        t0 = r.choice([0, 0x1000, 0x26000])
        segs = [(t0, t0, text, 5), (0x20000000, t0 + n, data, 6)]
    nph = len(segs)
    off = 52 + 32 * (nph + 1)
    offs = []
    body = b""
    for v, p, d, _ in segs:
        pad = -(off + len(body)) % 16
        body += bytes(pad)
        offs.append(off + len(body))
        body += d
    bss = (0x20000000 + len(data), 64) if not msp else (0x1C00 + len(data), 64)
    strtab = b"\0neighbour_a\0SHEPHERD_NODE_ID\0neighbour_b\0SHEPHERD_NODE_ID_OLD\0"
    which = {"text": 0, "data": 1}.get(sc["sym"])
    sym_off = None
    syms = [struct.pack(e + "IIIBBH", 0, 0, 0, 0, 0, 0)]

    def sym(name, value, size, shndx):
        syms.append(struct.pack(e + "IIIBBH", strtab.index(b"\0" + name + b"\0") + 1, value, size, 0x11, 0, shndx))

    if which is not None:
        d = segs[which][2]
        k = {"start": 0, "end": len(d) - 2, "mid": r.randrange(2, len(d) - 4) // 2 * 2}[sc["where"]]
        if segs[which][0] + k == 0:
            k = 4  # address 0 is the vector table, pwntools takes such a symbol for an undefined one
        sym_off = offs[which] + k
        sym(b"SHEPHERD_NODE_ID", segs[which][0] + k, 2, 1 + which)
        sym(b"neighbour_b", segs[which][0] + min(k + 2, len(d)), 2, 1 + which)
        sym(b"neighbour_a", segs[which][0] + max(k - 2, 0), 2, 1 + which)
    elif sc["sym"] == "bss":
        sym(b"SHEPHERD_NODE_ID", bss[0] + 4, 2, nph + 1)
    sym(b"SHEPHERD_NODE_ID_OLD", segs[0][0], 2, 1)
    symtab = b"".join(syms)
    shstr = b"\0.text\0.data\0.vec\0.bss\0.symtab\0.strtab\0.shstrtab\0"
    o_sym = off + len(body)
    o_sym += -o_sym % 4
    body += bytes(o_sym - off - len(body)) + symtab
    o_str = off + len(body)
    body += strtab
    o_shs = off + len(body)
    body += shstr
    o_sh = off + len(body)
    o_sh += -o_sh % 4
    body += bytes(o_sh - off - len(body))
    names = [b".text", b".data", b".vec"][:nph]
    sh = [bytes(40)]

    def section(name, typ, flags, addr, o, size, link=0, info=0, align=1, ent=0):
        sh.append(struct.pack(e + "10I", shstr.index(b"\0" + name + b"\0") + 1, typ, flags, addr, o, size, link, info, align, ent))

    for nm, (v, p, d, fl), o in zip(names, segs, offs):
        section(nm, 1, 6 if fl == 5 else 3 if fl == 6 else 2, v, o, len(d), align=2)
    section(b".bss", 8, 3, bss[0], offs[1] + len(data), bss[1], align=2)
    section(b".symtab", 2, 0, 0, o_sym, len(symtab), link=nph + 3, info=1, align=4, ent=16)
    section(b".strtab", 3, 0, 0, o_str, len(strtab))
    section(b".shstrtab", 3, 0, 0, o_shs, len(shstr))
    ph = b"".join(struct.pack(e + "8I", 1, o, v, p, len(d), len(d), fl, 2) for (v, p, d, fl), o in zip(segs, offs))
    ph += struct.pack(e + "8I", 1, offs[1] + len(data), bss[0], bss[0], 0, bss[1], 6, 2)
    ident = b"\x7fELF" + bytes([1, 2 if be else 1, 1]) + bytes(9)
    head = ident + struct.pack(e + "HHIIIIIHHHHHH", 2, 105 if msp else 40, 1, segs[0][0], 52, o_sh, 0, 52, 32, nph + 1, 40, len(sh), len(sh) - 1)
    mem = {p + j: x for v, p, d, _ in segs for j, x in enumerate(d)}
    addr = None
    if sym_off is not None:
        addr = segs[which][1] + sym_off - offs[which]
    return head + ph + body + b"".join(sh), sym_off, mem, addr


def damage(s, d):
    r = random.Random(d["seed"])
    n = len(s)
    p = int(d["pos"] * n)
    ln = min(d["len"], n - p)
    abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    k = d["k"]
    if k == "flip":
        c = list(s)
        c[p] = r.choice([x for x in abc if x != c[p]])
        return "".join(c)
    if k == "cut":
        return s[:p]
    if k == "insert":
        return s[:p] + "".join(r.choice(abc) for _ in range(ln)) + s[p:]
    if k == "double":
        return s[: p + ln] + s[p:]
    if k == "zero":
        return s[:p] + "A" * ln + s[p + ln :]
    if k == "swap":
        q = min(n, p + 2 * ln)
        return s[:p] + s[p + ln : q] + s[p : p + ln] + s[q:]
    return s[:p] + "=" * ln + s[p:]


def run(sc, ctx):
    from shepherd_core import fw_tools
    from shepherd_core.data_models import Firmware, FirmwareDType
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.data_models.task import FirmwareModTask
    from shepherd_core.logger import logger

    records = []

    class H(logging.Handler):
        def emit(self, rec):
            records.append(rec.getMessage())

    logger.addHandler(H())
    root = ctx.scratch / "d"
    root.mkdir()
    elf = sc["kind"].startswith("elf")
    sfx = ".elf" if elf else ".hex"
    sym_off = mem = load = None
    if elf:
        content, sym_off, mem, load = make_elf(sc)
    else:
        content = make_hex(sc)
    ctx.probe("elf" if elf else "hex")
    ctx.probe("big_endian", int(sc["kind"] == "elf_be"))
    ctx.probe("bss_symbol", int(elf and sc["sym"] == "bss"))
    ctx.probe("no_symbol", int(elf and sc["sym"] == "none"))
    src = root / ("orig" + sfx)
    src.write_bytes(content)
    fw = Firmware.from_firmware(src, name=sc["name"], owner="me", group="us", embed=True, **({"mcu": {"name": "msp430fr" if sc["kind"] == "hex_msp" else "nRF52"}} if not elf else {}))
    ref = Firmware.from_firmware(src, name=sc["name"], owner="me", group="us", embed=False, **({"mcu": {"name": "msp430fr" if sc["kind"] == "hex_msp" else "nRF52"}} if not elf else {}))
    digest = fw_tools.file_to_hash(src)
    ctx.check(fw.data_hash == digest == ref.data_hash == fw_tools.base64_to_hash(fw.data), "hashes-differ", lambda: f"{fw.data_hash} {digest} {ref.data_hash}")
    import hashlib

    ctx.check(digest == hashlib.sha3_224(content).hexdigest(), "wrong-hash", digest)
    ctx.probe("embedded")
    seq = 0

    def same(p, want, key, why):
        ctx.check(p.is_file() and p.read_bytes() == want, key, lambda: f"{why}: {p.name} " + ("is missing" if not p.is_file() else f"has {p.stat().st_size} bytes, differs from the {len(want)} original ones"))

    def one_of(p, olds, key, why):
        got = p.read_bytes() if p.is_file() else None
        ctx.check(got in olds, key, lambda: f"{why() if callable(why) else why}: {p.name} has {None if got is None else len(got)} bytes, allowed: {[None if o is None else len(o) for o in olds]}")
        return got

    def attempt(fn, *a, fault=None):
        if fault is None:
            return process(fn, *a), None
        dry_dir = a
        del dry_dir
        return None, None

    for j, o in enumerate(sc["ops"]):
        op = o["op"]
        why = f"op {j} {o}"
        if op == "transfer":
            d = o["dmg"]
            what = fw
            via = o["via"]
            if d is None:
                if via == "yaml":
                    p = what.to_file(root / f"m{j}.yaml")
                    got = Firmware.from_file(p)
                elif via == "json":
                    got = Firmware(**json.loads(what.model_dump_json()))
                elif via == "pickle":
                    got = pickle.loads(pickle.dumps(what))
                elif via == "dict":
                    got = Firmware(**what.model_dump())
                else:
                    w = Wrapper(datatype="Firmware", parameters=json.loads(what.model_dump_json()))
                    got = Firmware(**Wrapper(**json.loads(w.model_dump_json())).parameters)
                ctx.check(got.data == what.data and got.data_hash == what.data_hash and got.data_type == what.data_type, "transfer-changes-firmware", why)
                fw = got
            else:
                bad, bad_hash = what.data, what.data_hash
                if d["k"] == "hash":
                    q = int(d["pos"] * len(bad_hash))
                    bad_hash = bad_hash[:q] + ("1" if bad_hash[q] == "0" else "0") + bad_hash[q + 1 :]
                    ctx.probe("hash_damaged")
                else:
                    bad = damage(what.data, d)
                ctx.fault("content_" + d["k"])
                err = got = None
                try:
                    if via == "yaml":
                        p = what.to_file(root / f"m{j}.yaml")
                        t = p.read_text()
                        ctx.check(what.data in t, "stored-differently", why)
                        p.write_text(t.replace(what.data, bad).replace(what.data_hash, bad_hash))
                        got = Firmware.from_file(p)
                    elif via in ("json", "wrapper"):
                        got = Firmware(**{**json.loads(what.model_dump_json()), "data": bad, "data_hash": bad_hash})
                    else:
                        got = Firmware(**{**what.model_dump(), "data": bad, "data_hash": bad_hash})
                except Exception as e:  # noqa: BLE001
                    err = e
                if err is not None:
                    ctx.check(isinstance(err, ValueError), "damage-crashes", lambda: f"{why}: {type(err).__name__}: {err}")
                    ctx.probe("damaged_refused")
                else:
                    ctx.probe("damage_harmless")
                    ctx.check(bad_hash == what.data_hash, "damaged-hash-accepted", why)
                    p = got.extract_firmware(root / f"dmg{j}")
                    same(p, content, "damaged-firmware-accepted", why)
                # directly, without hash
                dst = root / f"direct{j}.bin"
                old = [None, b"old"][j % 2]
                if old:
                    dst.write_bytes(old)
                try:
                    fw_tools.base64_to_file(bad, dst)
                except Exception:  # noqa: BLE001
                    one_of(dst, [old], "failed-extraction-touches-destination", why)
                else:
                    import zstandard

                    same(dst, zstandard.ZstdDecompressor().decompress(base64.b64decode(bad)), "extracts-other-content", why)
            ctx.state(sc["kind"], op, via, d and d["k"], err is not None if d else None)
            ctx.ev(op, via, d and d["k"])
        elif op == "extract":
            use_ref = o["ref"]
            now = content
            if use_ref:
                if o["src"] == "changed":
                    now = content[:-3] + bytes([content[-3] ^ 1]) + content[-2:] + b"x"
                    src.write_bytes(now)
                    ctx.probe("reference_changed")
                    ctx.fault("source_replaced")
                elif o["src"] == "lost":
                    src.unlink()
                    ctx.probe("reference_lost")
                    ctx.fault("source_lost")
                ctx.probe("referenced")
            m = ref if use_ref else fw
            base = root / f"x{j}"
            old = None
            if o["to"] == "dir":
                base.mkdir()
                tgt, dst = base, None
            elif o["to"] == "deep":
                tgt = base / "a" / "b" / "fw"
                dst = tgt.with_suffix(sfx)
            elif o["to"] == "suffix":
                tgt = root / f"x{j}.img"
                dst = tgt.with_suffix(sfx)
            else:
                tgt = base
                dst = base.with_suffix(sfx)
                if o["to"] == "old":
                    old = b"old firmware" * 40
                    if o.get("size"):  # as long as the new one
                        old = bytes([content[0] ^ 1]) + content[1:]
                        ctx.probe("same_size")
                    dst.write_bytes(old)
                    ctx.probe("existing_destination")

            def job():
                logging.disable(logging.NOTSET)
                records.clear()
                if o["api"] and o["to"] != "dir":
                    return fw_tools.extract_firmware(m.data, m.data_type, tgt), list(records)
                return m.extract_firmware(tgt), list(records)

            def at():
                return dst if dst is not None else next((x for x in sorted(base.iterdir()) if not x.name.startswith(".")), base / "none")

            if use_ref and o["src"] == "lost":
                r = process(job)
                ctx.check(r.status == "exc", "lost-source-extracted", lambda: f"{why}: {r}")
                one_of(at(), [old], "failed-extraction-touches-destination", why)
                src.write_bytes(content)
                ctx.ev(op, "lost")
                continue
            f = o["fault"]
            if f is not None:
                # number of steps of the undisturbed operation
                import shutil

                keep = {p: p.read_bytes() for p in root.rglob("*") if p.is_file()}
                dry = process(job, root=root)
                for p in sorted(root.rglob("*"), reverse=True):
                    if p.is_file() and p not in keep:
                        p.unlink()
                for p, b in keep.items():
                    p.write_bytes(b)
                if o["to"] == "deep" and base.exists():
                    shutil.rmtree(base)
                r = process(job, root=root, plan=[place(f, dry.ops)])
                ctx.absorb(r)
                ctx.probe("disturbed", int(bool(r.fired)))
                ctx.probe("process_died", int(r.status == "died"))
                one_of(at(), [old, None if o["to"] in ("dir", "deep") or old is None else old, now], "torn-destination", lambda: f"{why}: {r}")
                if r.status == "ok":
                    same(Path(r.value[0]), now, "acknowledged-but-incomplete", why)
                ctx.state(sc["kind"], op, use_ref, o["to"], f["k"], r.status)
            r = process(job)
            ctx.check(r.status == "ok", "extraction-fails", lambda: f"{why}: {r}")
            p = Path(r.value[0])
            same(p, now, "extracted-content-differs", why)
            ctx.check(p.suffix == sfx and (dst is None or p == dst) and p.is_relative_to(root), "extracted-elsewhere", lambda: f"{why}: {p}")
            if not (o["api"] and o["to"] != "dir"):
                told = any("does not match" in x for x in r.value[1])
                ctx.check(told == (now != content), "mismatch-not-reported" if now != content else "mismatch-reported-wrongly", lambda: f"{why}: {r.value[1]}")
            ctx.check(m.compare_hash(p) == (now == content), "hash-comparison-wrong", why)
            ctx.check(m.compare_hash() == (now == content), "hash-comparison-wrong", why + " (no path)")
            twin = root / f"twin{j}{sfx}"
            for c in (content, now[:-1] + bytes([now[-1] ^ 4]), content + b" "):  # what is flashed is not always what was extracted
                twin.write_bytes(c)
                ctx.check(m.compare_hash(twin) == (c == content), "hash-comparison-wrong", lambda c=c: f"{why}: {twin.name} is {'the' if c == content else 'not the'} firmware")
            src.write_bytes(content)
            ctx.ev(op, use_ref, o["to"], o["src"] if use_ref else "")
        elif op == "patch":
            if not elf:
                continue
            work = root / f"p.v{j}.elf"
            work.write_bytes(content)
            work.chmod(0o750)
            val = o["id"]
            over = o["over"] or o["uid"]
            valid = 0 <= val < 65536
            out = work if over else root / f"p.v{j}_{val}.elf"
            old = content if over else None
            if o["old"] and not over:
                old = b"older"
                out.write_bytes(old)
            want = None
            if valid and sym_off is not None:
                want = bytearray(content)
                want[sym_off : sym_off + 2] = val.to_bytes(2, "big" if sc["kind"] == "elf_be" else "little")
                want = bytes(want)

            def job():
                if o["uid"]:
                    return fw_tools.modify_uid(work, val)
                return fw_tools.modify_symbol_value(work, "SHEPHERD_NODE_ID", val, overwrite=o["over"])

            def read():
                return fw_tools.read_uid(out), fw_tools.read_symbol(out, "SHEPHERD_NODE_ID"), fw_tools.find_symbol(out, "SHEPHERD_NODE_ID")

            f = o["fault"]
            if f is not None and want is not None:
                dry = process(job, root=root)
                work.write_bytes(content)
                if not over:
                    out.unlink(missing_ok=True)
                    if old is not None:
                        out.write_bytes(old)
                r = process(job, root=root, plan=[place(f, dry.ops)])
                ctx.absorb(r)
                ctx.probe("disturbed", int(bool(r.fired)))
                ctx.probe("process_died", int(r.status == "died"))
                got = one_of(out, [old, want], "torn-destination", lambda: f"{why}: {r}")
                if not over:
                    same(work, content, "source-changed", why)
                if r.status == "ok" and r.value is not None:
                    same(out, want, "acknowledged-but-incomplete", why)
                del got
                ctx.state(sc["kind"], op, over, f["k"], r.status)
            r = process(job)
            if not valid:
                ctx.check(r.status == "exc", "invalid-id-accepted", lambda: f"{why}: {r}")
                same(work, content, "source-changed", why)
                continue
            if want is None:
                ctx.check(r.status == "ok" and r.value is None, "patched-without-symbol", lambda: f"{why}: {r}")
                same(work, content, "source-changed", why)
                one_of(out, [old], "failed-patch-touches-destination", why)
                if sc["sym"] == "none":
                    q = process(read)
                    if out.exists():
                        ctx.check(q.status == "exc" or q.value == (None, None, False), "finds-missing-symbol", lambda: f"{why}: {q}")
                continue
            ctx.check(r.status == "ok" and r.value is not None and Path(r.value) == out, "patch-fails", lambda: f"{why}: {r}")
            got = out.read_bytes()
            if got != want:
                diff = [k for k in range(min(len(got), len(want))) if got[k] != want[k]][:8]
                ctx.check(False, "patch-changes-other-bytes", f"{why}: {len(got)} / {len(want)} bytes, ID at {sym_off}, differences at {diff}")
            if not over:
                same(work, content, "source-changed", why)
            q = process(read)
            ctx.check(q.status == "ok" and q.value == (val, val, True), "reads-other-id", lambda: f"{why}: {q}")
            if over:
                ctx.check(out.stat().st_mode & 0o777 == 0o750, "permissions-changed", lambda: f"{why}: {out.stat().st_mode:o}")
            ctx.probe("patched_inplace" if over else "patched")
            ctx.state(sc["kind"], op, sc["sym"], sc["where"], over)
            ctx.ev(op, val, over)
        elif op == "hex":
            work = root / f"h{j}{sfx}"
            work.write_bytes(content)
            out = root / f"h{j}.hex"
            old = None
            if elf and o["old"]:
                old = b":00000001FF\n"
                out.write_bytes(old)
            bindir = root / f"bin{j}"
            bindir.mkdir()
            mode = o["helper"]
            if mode not in ("ok", "missing"):
                s = bindir / "objcopy"
                s.write_text("#!/bin/sh\n" + {"fail": "exit 1", "fail_partial": 'printf ":10000000AB" > "$4"; exit 1', "killed_partial": 'printf ":10000000AB" > "$4"; kill -9 $$', "lies": "exit 0"}[mode] + "\n")
                s.chmod(0o755)

            def job():
                os.environ["PATH"] = {"ok": os.environ["PATH"], "missing": str(bindir)}.get(mode, f"{bindir}:{os.environ['PATH']}")
                if o["conv"]:
                    return fw_tools.firmware_to_hex(work)
                return fw_tools.elf_to_hex(work) if elf else fw_tools.firmware_to_hex(work)

            r = process(job)
            if not elf:
                ctx.check(r.status == "ok" and Path(r.value) == work, "hex-not-returned", lambda: f"{why}: {r}")
                same(work, content, "source-changed", why)
                continue
            same(work, content, "source-changed", why)
            if mode == "ok":
                ctx.check(r.status == "ok" and Path(r.value) == out, "conversion-fails", lambda: f"{why}: {r}")
                from intelhex import IntelHex

                ih = IntelHex(str(out)).todict()
                ih.pop("start_addr", None)
                if ih != mem:
                    k = next((a for a in sorted(set(ih) | set(mem)) if ih.get(a) != mem.get(a)), None)
                    ctx.check(False, "hex-differs", f"{why}: {len(ih)} / {len(mem)} bytes, first difference at {k:#x}: {ih.get(k)} / {mem.get(k)}")
            else:
                ctx.fault("helper_" + mode)
                ctx.probe("helper_failed")
                ctx.check(r.status == "exc", "helper-failure-ignored", lambda: f"{why}: {r}")
                one_of(out, [old], "torn-destination", why)
            ctx.state(sc["kind"], op, mode, o["old"])
            ctx.ev(op, mode)
        elif op == "task":
            # the whole way: task for the node, transferred, extracted there, ID patched in, converted for the programmer
            m = ref if o["ref"] else fw
            now = content
            if o["ref"] and o["src"] == "changed":
                now = content[:-3] + bytes([content[-3] ^ 1]) + content[-2:] + b"x"
                src.write_bytes(now)
            d = root / f"t{j}"
            d.mkdir()
            tgt = d if o["to"] == "dir" else d / "fw_final.hex"
            val = o["id"]
            for wrong in (None, m.model_dump(), m.data):
                try:
                    FirmwareModTask.from_firmware(wrong, custom_id=1, firmware_file=tgt)
                except (TypeError, ValueError):
                    continue
                ctx.check(False, "task-from-no-firmware", f"{why}: {type(wrong)}")
            try:
                logging.disable(logging.NOTSET)
                records.clear()
                t = FirmwareModTask.from_firmware(m, custom_id=val, firmware_file=tgt, verbose=1)
            except ValueError as e:
                ctx.check(val is not None and not 0 <= val < 65536, "task-refused", lambda e=e: f"{why}: {e}")
                src.write_bytes(content)
                continue
            ctx.check(val is None or 0 <= val < 65536, "invalid-id-accepted", why)
            told = any("does not match" in x for x in records)
            ctx.check(told == (now != content), "mismatch-not-reported" if now != content else "mismatch-reported-wrongly", lambda: f"{why}: {records}")
            ctx.check(str(t.data) == str(m.data) and t.data_type == m.data_type and t.custom_id == val and t.verbose == 1, "task-carries-other-firmware", lambda: f"{why}: {t.data_type} {t.custom_id} {t.verbose}")
            if o["to"] == "dir":
                other = FirmwareModTask.from_firmware(Firmware(**{**m.model_dump(), "name": "fw 1.7"}), custom_id=val, firmware_file=tgt)
                ctx.check(t.firmware_file.parent == d and t.firmware_file.suffix == ".hex" and t.firmware_file.name != other.firmware_file.name, "task-destination", lambda: f"{why}: {t.firmware_file} {other.firmware_file}")
            else:
                ctx.check(t.firmware_file == tgt, "task-destination", lambda: f"{why}: {t.firmware_file}")
            if o["via"] == "yaml":
                t2 = FirmwareModTask.from_file(t.to_file(d / "task.yaml"))
            elif o["via"] == "json":
                t2 = FirmwareModTask(**json.loads(t.model_dump_json()))
            else:
                t2 = t
            ctx.check(str(t2.data) == str(t.data) and t2.model_dump(exclude={"data"}) == t.model_dump(exclude={"data"}), "transfer-changes-task", lambda: f"{why}: {t2.model_dump(exclude={'data'})}")

            def job():
                f = fw_tools.extract_firmware(t2.data, t2.data_type, t2.firmware_file)
                seen = f.read_bytes()
                if t2.custom_id is not None and elf:
                    fw_tools.modify_uid(f, t2.custom_id)
                return f, seen, fw_tools.firmware_to_hex(f)

            if now is not content:  # a file broken like this can not be programmed
                src.write_bytes(content)
                continue
            r = process(job)
            ctx.check(r.status == "ok", "task-fails", lambda: f"{why}: {r}")
            f, seen, hx = r.value
            ctx.check(seen == now, "extracted-content-differs", why)
            ctx.check(Path(hx).parent == d and Path(hx).suffix == ".hex", "task-destination", lambda: f"{why}: {hx}")
            if elf:
                from intelhex import IntelHex

                want = dict(mem)
                if val is not None and load is not None:
                    want[load], want[load + 1] = val.to_bytes(2, "big" if sc["kind"] == "elf_be" else "little")
                ih = IntelHex(str(hx)).todict()
                ih.pop("start_addr", None)
                if ih != want:
                    k = next((a for a in sorted(set(ih) | set(want)) if ih.get(a) != want.get(a)), None)
                    ctx.check(False, "programmed-differs", f"{why}: {len(ih)} / {len(want)} bytes, first difference at {k:#x}: {ih.get(k)} / {want.get(k)}")
            else:
                same(Path(hx), now, "programmed-differs", why)
            ctx.probe("task_programmed")
            ctx.state(sc["kind"], op, o["ref"], o["to"], o["via"], val is None)
            ctx.ev(op, o["ref"], o["via"], val)
        else:
            d = root / f"n{j}"
            d.mkdir()
            want = {}
            for nr, k in enumerate(dict.fromkeys(o["pick"])):
                c = content + b"" if nr == 0 else None
                if c is None:
                    m = fw.model_copy(update={"name": NAMES[k]})
                else:
                    m = Firmware(**{**fw.model_dump(), "name": NAMES[k]})
                m = Firmware(**{**m.model_dump(), "data": fw_tools.file_to_base64(_variant(root, content, nr)), "data_hash": None})
                want[NAMES[k]] = (m.extract_firmware(d), _variant(root, content, nr).read_bytes())
            ctx.probe("dotted_names", int(sum("." in x for x in want) > 1))
            for nm, (p, c) in want.items():
                same(p, c, "firmwares-overwrite-each-other", f"{why}: {nm} -> {p.name}; {sorted(x.name for x in d.iterdir())}")
            ctx.ev(op, sorted(want))
    same(src, content, "source-changed", "finally")
    del seq, attempt, FirmwareDType, load


def _variant(root, content, nr):
    p = root / f"variant{nr}"
    p.write_bytes(content if nr == 0 else content + b"\n" * nr)
    return p


def simplify(sc):
    import copy

    for k, v in (("size", 60), ("size", 4), ("kind", "hex_nrf"), ("kind", "elf_arm"), ("where", "mid"), ("sym", "data"), ("name", "fw")):
        if sc[k] != v:
            yield {**copy.deepcopy(sc), k: v}
    for k, o in enumerate(sc["ops"]):
        for key, v in (("fault", None), ("old", False), ("dmg", None), ("ref", False), ("to", "file"), ("src", "same")):
            if key in o and o[key] != v:
                s = copy.deepcopy(sc)
                s["ops"][k][key] = v
                yield s
