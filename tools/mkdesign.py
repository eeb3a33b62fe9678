"""Regenerates DESIGN.md from tools/design_head.md, design_tail.md, the property modules, properties.jsonl, seeded/ and tools/catches.txt."""
import importlib, json, pathlib, sys
R = pathlib.Path("/verif")
sys.path[:0] = [str(R), "/repo/src"]
props = [json.loads(l) for l in (R / "properties.jsonl").read_text().splitlines()]
cost = json.loads((R / "tools/costs.json").read_text()) if (R / "tools/costs.json").exists() else {}
out = [(R / "tools/design_head.md").read_text().rstrip(), "", "## The properties, one by one", ""]
for p in props:
    i = p["id"]
    if not (R / f"dst/props/{i.lower()}.py").exists():
        continue
    m = importlib.import_module("dst.props." + i.lower())
    out += [f"### {i} {p['title']}", "",
            f"*Simulated and compared:* {m.RULE}", "",
            f"*Bounds:* {p['quantifier']['text']}. Quick: {m.RUNS['quick']} runs" + (f" ({cost[i]} s on 8 idle cores)" if i in cost else "") + f"; thorough: {m.RUNS['thorough']} runs.", "",
            f"*Real:* {'; '.join(m.REAL)}. *Stub:* {'; '.join(m.STUB) or 'none'}.", ""]
    if m.ASSUME:
        out += ["*Taken for granted:* " + "; ".join(m.ASSUME) + ".", ""]
    out += [f"*Beyond the tests:* {p['why_tests_cant']}", ""]
out += ["## Not applicable", ""]
man = json.loads((R / "MANIFEST.json").read_text())
for n in man["not_applicable"]:
    t = next(p["title"] for p in props if p["id"] == n["property"])
    out.append(f"- **{n['property']}** {t}: {n['reason']}.")
out += ["", "## Planted bugs and what catches them", "",
        "Each is in `seeded/<id>/` (patch, demonstration, meta). Outcome of the property's own quick check with the bug applied", "(`tools/catch.sh`):", "", "| bug | property | needs | caught |", "|---|---|---|---|"]
c = {}
f = R / "tools/catches.txt"
if f.exists():
    for l in f.read_text().splitlines():
        w = l.split()
        c[w[0]] = "yes" if "rc=1" in l and "VIOLATION" in l else "no"
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['needs'].replace('|', '/')} | {c.get(d.name, '?')} |")
out += ["", (R / "tools/design_tail.md").read_text().rstrip(), ""]
(R / "DESIGN.md").write_text("\n".join(out))
print(len(out), "lines")
