"""Mutation trial: small seeded changes of /repo's code in a scratch copy, which checks notice them, and do the tests?

Usage: mutate.py OUT.jsonl N SEED [path-prefix ..]   (works on copies below /tmp/mut, never on /repo)
Survivors (tests pass, no check objects) are to be looked at by hand: equivalent, outside of every property, or a gap.
"""

import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from pathlib import Path

M = Path(os.environ.get("MUT_DIR", "/tmp/mut"))
CORE = "shepherd_core/shepherd_core/"
DATA = "shepherd_data/shepherd_data/"
MAP = {
    CORE + "writer.py": ["C01", "C02", "C03", "C15", "C04", "C08"],
    CORE + "reader.py": ["C01", "C03", "C07", "C08", "C22", "C17", "C04", "C06", "C16"],
    CORE + "decoder_waveform/uart.py": ["C16"],
    CORE + "file_safe.py": ["C04", "C05", "C19", "C20"],
    CORE + "vsource/virtual_converter_model.py": ["C12", "C14", "C15"],
    CORE + "vsource/virtual_source_model.py": ["C12", "C14", "C15"],
    CORE + "vsource/target_model.py": ["C12", "C14"],
    CORE + "vsource/virtual_harvester_model.py": ["C13", "C14", "C15"],
    CORE + "vsource/virtual_source_simulation.py": ["C15"],
    CORE + "vsource/virtual_harvester_simulation.py": ["C15"],
    CORE + "data_models/content/virtual_harvester.py": ["C13", "C15", "C10", "C05"],
    CORE + "data_models/content/virtual_source.py": ["C12", "C10", "C05"],
    CORE + "data_models/content/firmware.py": ["C19", "C05"],
    CORE + "data_models/base/calibration.py": ["C01", "C12", "C05", "C08"],
    CORE + "data_models/base/shepherd.py": ["C05", "C21", "C10"],
    CORE + "data_models/base/content.py": ["C05", "C21"],
    CORE + "data_models/base/timezone.py": ["C21"],
    CORE + "data_models/base/wrapper.py": ["C05"],
    CORE + "data_models/base/cal_measurement.py": ["C05"],
    CORE + "data_models/task/__init__.py": ["C11", "C05"],
    CORE + "data_models/task/testbed_tasks.py": ["C11", "C05"],
    CORE + "data_models/task/observer_tasks.py": ["C11", "C05"],
    CORE + "data_models/task/emulation.py": ["C11", "C21", "C05"],
    CORE + "data_models/task/harvest.py": ["C21", "C05"],
    CORE + "data_models/task/firmware_mod.py": ["C11", "C05"],
    CORE + "data_models/task/programming.py": ["C11", "C05"],
    CORE + "data_models/experiment/experiment.py": ["C11", "C21", "C05"],
    CORE + "data_models/experiment/target_config.py": ["C11", "C05"],
    CORE + "data_models/experiment/observer_features.py": ["C11", "C05"],
    CORE + "data_models/testbed/testbed.py": ["C11", "C10"],
    CORE + "data_models/testbed/observer.py": ["C11", "C10"],
    CORE + "data_models/testbed/target.py": ["C11", "C10"],
    CORE + "testbed_client/fixtures.py": ["C10", "C09"],
    CORE + "testbed_client/cache_path.py": ["C09"],
    CORE + "testbed_client/client_abc_fix.py": ["C10", "C18"],
    CORE + "testbed_client/client_web.py": ["C18"],
    CORE + "testbed_client/user_model.py": ["C18"],
    CORE + "fw_tools/converter.py": ["C19"],
    CORE + "fw_tools/converter_elf.py": ["C19"],
    CORE + "fw_tools/patcher.py": ["C19"],
    CORE + "fw_tools/validation.py": ["C19"],
    CORE + "inventory/__init__.py": ["C20"],
    CORE + "inventory/system.py": ["C20"],
    CORE + "inventory/python.py": ["C20"],
    CORE + "inventory/target.py": ["C20"],
    DATA + "reader.py": ["C04", "C08", "C22", "C21", "C06"],
    DATA + "cli.py": ["C06", "C04", "C22", "C17"],
    DATA + "ivonne.py": ["C23", "C04"],
    DATA + "mppt.py": ["C23"],
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<"}


def mutants(src):
    """(line, old text span, new text) of every small change."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(a, b, new, n, kind):
        out.append((n.lineno, a, b, new.encode() if isinstance(new, str) else new, kind))

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
            for d in n.body:
                walk(d, fn)
            return
        if isinstance(n, (ast.AnnAssign,)) and fn is None:
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call):
            f = seg(n.func)
            if "logger." in f or f.endswith(("Error", "Field", "print", "Annotated")) or "_logger" in f:
                return
        if isinstance(n, ast.Raise):
            return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a = pos(n.left)[1]
                b = pos(n.comparators[0])[0]
                new = f" {CMP[type(n.ops[0])]} "
                add(a, b, new + ("(" if raw[a:b].strip().endswith(b"(") else ""), n, "cmp")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                a = pos(n.left)[1]
                b = pos(n.right)[0]
                mid = raw[a:b].decode()
                sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|", ast.LShift: "<<", ast.RShift: ">>"}[type(n.op)]
                if mid.count(sym) == 1:
                    add(a, b, mid.replace(sym, BIN[type(n.op)]), n, "arith")
            elif isinstance(n, ast.BoolOp):
                a = pos(n.values[0])[1]
                b = pos(n.values[1])[0]
                mid = raw[a:b].decode()
                o, r = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                if mid.count(o) == 1:
                    add(a, b, mid.replace(o, r), n, "bool")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(*pos(n), "(" + seg(n.operand) + ")", n, "not")
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                add(*pos(n), str(not n.value), n, "flag")
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                add(*pos(n), repr(n.value + 1) if n.value < 3 else repr(n.value * 2), n, "const")
            elif isinstance(n, ast.Constant) and n.value is None:
                pass
            elif isinstance(n, ast.If) and not isinstance(n.body[0], ast.Raise) and "isinstance" not in seg(n.test) and "verbose" not in seg(n.test):
                add(*pos(n.test), "True", n, "if-true")
                add(*pos(n.test), "False", n, "if-false")
            elif isinstance(n, ast.IfExp):
                add(*pos(n), "(" + seg(n.body) + ")", n, "ifexp")
                add(*pos(n), "(" + seg(n.orelse) + ")", n, "ifexp")
            elif isinstance(n, (ast.AugAssign,)):
                add(*pos(n), "pass", n, "drop-aug")
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "logger" not in seg(n.value.func) and "super()" not in seg(n.value.func):
                add(*pos(n), "pass", n, "drop-call")
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                add(*pos(n), "pass", n, "drop-assign")
            elif isinstance(n, (ast.Continue, ast.Break)):
                add(*pos(n), "pass", n, "drop-jump")
            elif isinstance(n, ast.Call):
                f = seg(n.func)
                if f in ("min", "max"):
                    add(*pos(n.func), {"min": "max", "max": "min"}[f], n, "minmax")
                for k in n.keywords:
                    if k.arg and "yaml" not in f and k.arg not in ("desc", "leave", "exist_ok", "encoding", "verbose", "parents") and len(n.keywords) + len(n.args) > 1:
                        a = pos(k.value)[1]
                        st = raw.rfind(k.arg.encode(), 0, pos(k.value)[0])
                        e = a
                        while raw[e:e + 1] in (b" ", b"\n"):
                            e += 1
                        if raw[e:e + 1] == b",":
                            e += 1
                            add(st, e, "", n, "drop-kw")
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                for q in (n.slice.lower, n.slice.upper):
                    if q is not None:
                        add(*pos(q), f"({seg(q)}) + 1", n, "slice")
        for c in ast.iter_child_nodes(n):
            walk(c, fn)

    for c in tree.body:
        walk(c, None)
    return raw, out


def sh(cmd, t=None, **kw):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", timeout=t, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, str(e.stdout)[-500:], "timeout")


def main():
    outp, n, seed = Path(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    prefixes = sys.argv[4:]
    shutil.rmtree(M, ignore_errors=True)
    M.mkdir(parents=True)
    repo, ver = M / "repo", M / "verif"
    sh(f"cp -a /repo {repo}")
    sh(f"git clone -q /verif {ver}; cp -a /verif/dst {ver}/")
    sh("./check --build", cwd=ver)
    env = {**os.environ, "DST_PATH": f"{repo}/shepherd_core:{repo}/shepherd_data", "DST_FAST": "1", "VERIF_SEED": "1"}
    todo = []
    skip = ("cache_path", "validation", "cal_measurement", "inventory/target", "base/wrapper")
    for f in MAP:
        if any(x in f for x in skip):
            continue
        if prefixes and not any(p in f for p in prefixes):
            continue
        raw, ms = mutants((repo / f).read_text())
        todo += [(f, m) for m in ms]
    rng = random.Random(seed)
    rng.shuffle(todo)
    part, parts = (int(x) for x in os.environ.get("MUT_PART", "0/1").split("/"))
    todo = todo[part::parts]
    print(f"{len(todo)} mutants possible", flush=True)
    done = set()
    if outp.exists():
        done = {json.loads(x)["id"] for x in outp.read_text().splitlines()}
    for f, (line, a, b, new, kind) in todo[:n]:
        p = repo / f
        raw = Path("/repo", f).read_bytes()
        mut = raw[:a] + new + raw[b:]
        mid = f"{f}:{line}:{kind}:{a}"
        if mid in done:
            continue
        try:
            compile(mut, f, "exec")
        except SyntaxError:
            continue
        t0 = time.time()
        p.write_bytes(mut)
        old_l = raw[: a].count(b"\n")
        rec = {"id": mid, "old": raw.split(b"\n")[line - 1].decode().strip(), "new": mut.split(b"\n")[line - 1].decode().strip(), "line": old_l + 1}
        caught = None
        for c in MAP[f]:
            r = sh(f"./check {c}", t=400, cwd=ver, env=env)
            if r.returncode:
                k = [x for x in r.stdout.splitlines() if x.startswith("-- ")]
                caught = f"{c} rc={r.returncode} {k[0][:150] if k else (r.stdout + r.stderr)[-300:]}"
                break
        rec["caught"] = caught
        if caught is None or "rc=1" not in caught:
            e = {**os.environ, "HOME": "/root", "TZ": "UTC", "MPLBACKEND": "Agg", "PWNLIB_NOTERM": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONPATH": env["DST_PATH"], "XDG_CACHE_HOME": str(M / "cache")}
            bad = 0
            for d in ("shepherd_data", "shepherd_core"):
                if bad:
                    break
                r = sh(f"/opt/venv/bin/python -m pytest tests -x -c pyproject.toml --rootdir={repo} -o addopts= -q -p no:cacheprovider --timeout=120 --basetemp={M}/tmp_{d} 2>&1 | tail -3", t=500, cwd=repo / d, env=e)
                bad |= "failed" in r.stdout or "error" in r.stdout or r.returncode == 124
            rec["tests"] = "fail" if bad else "pass"
        rec["s"] = round(time.time() - t0)
        p.write_bytes(raw)
        with outp.open("a") as fh:
            fh.write(json.dumps(rec) + "\n")


main()
