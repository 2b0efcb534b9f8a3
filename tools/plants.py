"""Planted bugs: builds seeded/<id>/ from the descriptions below and tries them out.

plants.py build [ID..]   write patch.diff / demo.sh / meta.json (against /repo's HEAD)
plants.py try [ID..]     build, then: demo with and without the patch, test suite with it, this property's quick check with it
"""
import json
import os
import subprocess
import sys
from pathlib import Path

REPO = Path("/repo")
OUT = Path("/verif/seeded")
CORE = "shepherd_core/shepherd_core/"
DATA = "shepherd_data/shepherd_data/"

PLANTS = {}


def plant(pid, prop, needs, breaks, edits, demo):
    PLANTS[pid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    sh("git -C /repo checkout -- .")


def apply(p):
    for f, old, new in p["edits"]:
        path = REPO / f
        s = path.read_text()
        if s.count(old) != 1:
            raise SystemExit(f"{f}: {s.count(old)} x {old!r}")
        path.write_text(s.replace(old, new))


DEMO = """#!/bin/sh
# exit 0: property holds, nonzero: broken. All files go to a scratch folder.
set -e
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/cache" "$work/t"
export XDG_CACHE_HOME="$work/cache" MPLCONFIGDIR="$work/cache" MPLBACKEND=Agg TMPDIR="$work/t" PYTHONDONTWRITEBYTECODE=1
cd "$work/t"
timeout 200 /opt/venv/bin/python - <<'PYEND'
%s
PYEND
"""


def build(pid):
    p = PLANTS[pid]
    if sh("git -C /repo status --porcelain").stdout.strip():
        raise SystemExit("repo is not clean")
    try:
        apply(p)
        diff = sh("git -C /repo diff").stdout
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
        # at least one removed line has to be from the original repository
        sh("git -C /repo checkout -- .")
        orig = False
        for ln in diff.splitlines():
            if ln.startswith("--- a/"):
                txt = sh(f"git -C /repo show {base}:{ln[6:]}").stdout.splitlines()
            elif ln.startswith("-") and not ln.startswith("---") and ln[1:].strip():
                orig |= ln[1:] in txt
        if not orig:
            print(f"{pid}: NOTE changes no original line")
    finally:
        clean()
    d = OUT / pid
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(diff)
    (d / "demo.sh").write_text(DEMO % p["demo"].strip())
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n")


def trial(pid, tests=True):
    p = PLANTS[pid]
    build(pid)
    d = OUT / pid
    r0 = sh(f"sh {d}/demo.sh", cwd="/repo")
    out = [f"demo clean={r0.returncode}"]
    if r0.returncode:
        print(r0.stdout[-1500:], r0.stderr[-2500:])
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff")
        out.append(f"apply={r.returncode}")
        r1 = sh(f"sh {d}/demo.sh", cwd="/repo")
        out.append(f"demo patched={r1.returncode}")
        if not r1.returncode:
            print(r1.stdout[-1500:], r1.stderr[-1500:])
        if tests:
            r = sh("bash /opt/vp/test.sh /tmp/plant.json | tail -1")
            out.append(r.stdout.strip())
        if os.path.exists(f"/verif/dst/checks/{p['prop'].lower()}.py"):
            r = sh(f"VERIF_SEED=1 VERIF_TIER=quick ./check {p['prop']}", cwd="/verif")
            keys = [x for x in r.stdout.splitlines() if x.startswith("-- ")]
            out.append(f"check={r.returncode} {keys[0][:160] if keys else r.stdout[-300:]}")
    finally:
        clean()
    print(pid, "|", " | ".join(out), flush=True)
    if len(out) >= (5 if tests else 4):
        f = Path(__file__).parent / "plants_results.json"
        res = json.loads(f.read_text()) if f.exists() else {}
        res[pid] = {"property": p["prop"], "caught": "check=1" in out[-1], "how": out[-1].split("-- ", 1)[-1].split(": ")[0] if "check=1" in out[-1] else "", "tests": out[-2] if tests else res.get(pid, {}).get("tests", "")}
        f.write_text(json.dumps(dict(sorted(res.items())), indent=1) + "\n")


def table():
    """Rewrites the table at the end of DESIGN.md."""
    res = json.loads((Path(__file__).parent / "plants_results.json").read_text())
    f = Path("/verif/DESIGN.md")
    head = f.read_text().split("<!-- plants -->")[0]
    rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    for i, p in PLANTS.items():
        r = res.get(i)
        rows.append(f"| {i} | {p['prop']} | {p['needs']} | {'not tried' if r is None else r['how'].split(' ', 2)[0] + ' ' + r['how'].split(' ')[-1] if r['caught'] else 'MISSED'} |")
    f.write_text(head + "<!-- plants -->\n" + "\n".join(rows) + "\n")


sys.path.insert(0, str(Path(__file__).parent))
from plants_list import *  # noqa: E402,F403
import plants_list  # noqa: E402

plants_list.register(plant, CORE, DATA)

if __name__ == "__main__":
    if sys.argv[1] == "table":
        table()
        sys.exit()
    ids = [x for x in sys.argv[2:] if not x.startswith("-")] or list(PLANTS)
    ids = [q for i in ids for q in PLANTS if q == i or (i.endswith("*") and q.startswith(i[:-1]))]
    for i in ids:
        if sys.argv[1] == "build":
            build(i)
        else:
            trial(i, tests="--no-tests" not in sys.argv)
