"""Writes MANIFEST.json from the checks that exist."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
NA = {
    "C24": "CalibrationPair.raw_to_si / si_to_raw are pure functions of one value: no concurrency, time, I/O or several parties a simulated schedule or fault could act on. (Their use on the recording path is covered inside C01's SI appends.)",
    "C25": "Constraint checking happens inside one model constructor call, a pure function of its arguments; no schedule, clock, I/O or fault enters. (Clock-dependent parts - start times - are decided by C11 and C21.)",
}
TECH = {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = V / "dst" / "checks" / f"{i.lower()}.py"
    if f.exists() and i not in NA:
        doc = f.read_text().split('"""')[1].strip().replace("\n", " ")
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences, " + doc.split(":", 1)[1].strip().rstrip("."),
            "level": "exploration",
            "level_note": "Sampled, not exhaustive: the property held on every seeded execution; each run is one exactly repeatable schedule with its faults, on the real code of /repo.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check registered yet; under construction.")})
m = {
    "version": 1,
    "setup_cmd": "./check --build",
    "checks": checks,
    "not_applicable": na,
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
try:
    import jsonschema
    jsonschema.validate(m, json.loads(Path("/root/.vp/MANIFEST.schema.json").read_text()))
except ImportError:
    pass
print(len(checks), "claimed", [x["property"] for x in na])
