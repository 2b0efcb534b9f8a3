"""Try many candidate bugs quickly: trybugs.py FILE.py [NAME-prefix ..]   (works on copies below /tmp/tb, never on /repo)

FILE.py defines BUGS = [(name, [check ids], [(path below /repo, old, new), ..]), ..]. For each: do its checks object, do the tests?
"""
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

M = Path(os.environ.get("TB_DIR", "/tmp/tb"))
JOBS = int(os.environ.get("TB_JOBS", "2"))
SRC = os.environ.get("TB_SRC", "/verif")


def sh(cmd, t=None, **kw):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", timeout=t, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, str(e.stdout)[-500:], "timeout")


def one(k, name, ids, edits, tests):
    d = M / f"j{k}"
    repo, ver = d / "repo", d / "verif"
    if not ver.exists():
        d.mkdir(parents=True, exist_ok=True)
        sh(f"git clone -q {SRC} {ver}; cp -a {SRC}/dst {ver}/")
        sh("./check --build", cwd=ver)
    sh(f"rm -rf {repo}; cp -a /repo {repo}; git -C {repo} checkout -q -- .")
    for f, old, new in edits:
        p = repo / f
        s = p.read_text()
        if s.count(old) != 1:
            return f"{name}: BAD EDIT {f}: {s.count(old)} x {old!r}"
        p.write_text(s.replace(old, new))
    env = {**os.environ, "DST_PATH": f"{repo}/shepherd_core:{repo}/shepherd_data", "DST_FAST": "1", "VERIF_SEED": "1"}
    out = []
    for i in ids:
        r = sh(f"./check {i}", 900, cwd=ver, env=env)
        m = re.search(r"^-- \S+ run=(\d+) (\S+)", r.stdout, re.M)
        out.append(f"{i}:" + ("caught " + m.group(2) + " run " + m.group(1) if r.returncode == 1 and m else "MISSED" if r.returncode == 0 else f"rc={r.returncode} {(r.stdout + r.stderr)[-300:]}"))
        if r.returncode == 1:
            break
    if tests:
        r = sh(f"cd {repo} && PYTHONPATH={repo}/shepherd_core:{repo}/shepherd_data timeout 300 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider shepherd_core/tests shepherd_data/tests 2>&1 | tail -3", 320)
        out.append("tests: " + r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "tests ?")
    return f"{name}: " + " | ".join(out)


def main():
    ns: dict = {}
    exec(Path(sys.argv[1]).read_text(), ns)
    pre = [a for a in sys.argv[2:] if not a.startswith("-")]
    todo = [b for b in ns["BUGS"] if not pre or any(b[0].startswith(p) for p in pre)]
    free = list(range(JOBS))

    def go(b):
        k = free.pop()
        try:
            return one(k, *b, tests="--tests" in sys.argv)
        finally:
            free.append(k)

    with ThreadPoolExecutor(JOBS) as ex:
        for res in ex.map(go, todo):
            print(res, flush=True)
    shutil.rmtree(M, ignore_errors=True)


main()
