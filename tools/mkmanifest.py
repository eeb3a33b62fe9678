"""Regenerates MANIFEST.json from the property modules present."""
import json, pathlib, re, subprocess
R = pathlib.Path("/verif")
props = [json.loads(l) for l in (R/"properties.jsonl").read_text().splitlines()]
NA = {
 "N01": "unit conversion is a pure function of its arguments: there is no schedule, clock, fault or second party for a simulator to control",
 "N02": "geodesy is a set of pure numeric functions: nothing for scheduling or fault injection to vary",
 "N03": "location objects are immutable values with pure comparisons: no schedule, time or fault is involved",
}
NOTES = json.loads((R/"tools/notes.json").read_text()) if (R/"tools/notes.json").exists() else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if (R/f"dst/props/{i.lower()}.py").exists():
        checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough",
            technique="deterministic simulation with fault injection (seeded search)",
            level="exploration",
            level_note=NOTES.get(i, "Seeded search over simulated runs of the real code against an executable reference model; no claim beyond the runs explored. Trusts SimPy and the harness model.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
  notes="No hooks in /repo are needed: the SimPy environment, the stage's random generator, PYTHONHASHSEED and the public API are the seams.")
(R/"MANIFEST.json").write_text(json.dumps(m, indent=1)+"\n")
print(len(checks), "checks", len(na), "na")
