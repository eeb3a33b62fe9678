"""python -m dst.check PROP [--tier quick|thorough]: decide one property by seeded simulation."""
from __future__ import annotations

import argparse
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("DST_REPO", "/repo")
WORKERS = 8
KNOWN = ROOT / "known-findings.txt"


def child_env(hashseed, cache):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTEST", "PYTHON"))}
    e.update(PYTHONPATH=f"{ROOT}:{REPO}/src", PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
             PYTHONPYCACHEPREFIX=cache, LANG="C.UTF-8", PYTHONWARNINGS="ignore", DST_REPO=REPO)
    return e


def call(mode, job, hashseed, cache, timeout=300):
    p = subprocess.run([PY, "-m", "dst.worker", mode], input=json.dumps(job), text=True,
                       capture_output=True, env=child_env(hashseed, cache), timeout=timeout, cwd=ROOT)
    if p.returncode != 0:
        raise RuntimeError(f"worker {mode} failed: {p.stderr[-2000:]}")
    return json.loads(p.stdout.strip().splitlines()[-1])


def known_findings(prop):
    """Lines: finding: property=ID kind=KIND replay=FILE text   |  fixed: property=ID COMMIT text"""
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith("finding:"):
                f = line.split(None, 4)
                d = dict(x.split("=", 1) for x in f[1:4])
                if d["property"] == prop:
                    out.append(dict(kind=d["kind"], replay=d["replay"], text=f[4]))
    return out


def hashseed_of(seed, worker):
    return (seed * 1000 + worker + 1) % 4294967295


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    a = ap.parse_args()
    prop = a.prop.upper()
    t0 = time.time()
    cache = tempfile.mkdtemp(prefix="dst-pyc-")
    try:
        return decide(prop, a, t0, cache)
    finally:
        shutil.rmtree(cache, ignore_errors=True)


def decide(prop, a, t0, cache):
    meta = json.loads(subprocess.run(
        [PY, "-c", "import json,sys;from dst.worker import load;m=load(sys.argv[1]);"
         "print(json.dumps(dict(RUNS=m.RUNS,RULE=m.RULE,REAL=m.REAL,STUB=m.STUB,"
         "ASSUME=getattr(m,'ASSUME',[]),WALL=getattr(m,'WALL',{}))))", prop],
        env=child_env(1, cache), capture_output=True, text=True, cwd=ROOT, check=True).stdout)
    runs = a.runs or meta["RUNS"][a.tier]
    wall = a.wall or meta["WALL"].get(a.tier) or {"quick": 100.0, "thorough": 1500.0}[a.tier]
    found = known_findings(prop)
    known = [f["kind"] for f in found]

    # pinned findings: still there?
    active = []
    for f in found:
        rp = json.loads((ROOT / f["replay"]).read_text())
        res = call("one", dict(prop=prop, plan=rp["plan"]), rp.get("hashseed", 1), cache)
        if res["violations"] and res["violations"][0][0] == f["kind"]:
            print(f"KNOWN-FINDING: property={prop} {f['text']}", flush=True)
            active.append(f["kind"])
        else:
            print(f"note: listed finding no longer reproduces: {f['text']} ({res['violations'][:1]})")

    # exploration: WORKERS independent streams, each with its own hash seed
    procs = []
    for w in range(WORKERS):
        job = dict(prop=prop, tier=a.tier, seed=a.seed, start=w, stop=runs, stride=WORKERS, wall=wall,
                   known=known)
        of = tempfile.TemporaryFile("w+")
        ef = tempfile.TemporaryFile("w+")
        p = subprocess.Popen([PY, "-m", "dst.worker", "explore", json.dumps(job)], stdout=of, stderr=ef,
                             env=child_env(hashseed_of(a.seed, w), cache), cwd=ROOT)
        procs.append((w, p, of, ef))
    results, errors = [], []
    for w, p, of, ef in procs:
        try:
            p.wait(timeout=max(10.0, wall + 120 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        of.seek(0)
        ef.seek(0)
        lines = of.read().strip().splitlines()
        if p.returncode != 0 or not lines:
            errors.append(f"worker {w} rc={p.returncode}: {ef.read()[-1500:]}")
            continue
        results.append((w, json.loads(lines[-1])))

    faults, covers, known_hits = Counter(), Counter(), Counter()
    digests, shapes = set(), set()
    tot = Counter()
    samples = []
    for w, r in results:
        faults.update(r["faults"])
        covers.update(r["covers"])
        known_hits.update(r["known_hits"])
        digests.update(r["digests"])
        shapes.update(r["shapes"])
        for k in ("runs", "nontrivial", "steps", "simtime", "nd", "rechecked"):
            tot[k] += r[k]
        samples += r["samples"]
    bad = sorted(((r["violation"]["index"], w, r["violation"]) for w, r in results if r["violation"]),
                 key=lambda x: x[0])
    explore_wall = time.time() - t0

    line = None
    if bad:
        _, w, v = bad[0]
        line = report(prop, a, w, v, cache)

    ev = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(
                  evaluations=int(tot["runs"]),
                  distinct_nontrivial=len(digests),
                  rule=meta["RULE"] + " Distinct = distinct fingerprint of the whole event sequence and "
                       "of every logged observation.",
                  samples=samples[:3],
                  simulated_runs=int(tot["runs"]),
                  runs_per_hour=int(tot["runs"] / max(explore_wall, 1e-9) * 3600),
                  events_processed=int(tot["steps"]),
                  simulated_time_units=round(float(tot["simtime"]), 3),
                  faults_injected=dict(sorted(faults.items())),
                  situations_reached=dict(sorted(covers.items())),
                  distinct_event_orders=len(shapes),
                  replays_rechecked=int(tot["rechecked"]), replays_that_differed=int(tot["nd"]),
                  known_finding_hits=dict(known_hits), known_findings_active=active,
                  hash_seeds=[hashseed_of(a.seed, w) for w in range(WORKERS)],
                  seeds=f"{a.seed}/{prop}/0..{runs - 1}",
                  real_code=meta["REAL"], stubbed=meta["STUB"],
                  worker_errors=errors),
              assumptions=meta["ASSUME"], wall_s=round(time.time() - t0, 2),
              violations=1 if bad else 0)
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop}: {int(tot['runs'])} runs, {len(digests)} distinct non-trivial, "
          f"{len(shapes)} event orders, {int(tot['steps'])} events, faults={dict(faults)}, "
          f"{time.time() - t0:.1f}s")
    if line:
        print(line, flush=True)
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    return 0


def report(prop, a, w, v, cache):
    hs = hashseed_of(a.seed, w)
    plan, tries = v["plan"], 0
    try:
        s = call("shrink", dict(prop=prop, plan=plan, kind=v["kind"]), hs, cache, timeout=200)
        plan, tries = s["plan"], s["tries"]
    except Exception as e:  # keep the unshrunk plan
        print(f"note: minimiser failed: {e}")
    res = call("one", dict(prop=prop, plan=plan), hs, cache)
    if not res["violations"]:
        plan = v["plan"]
        res = call("one", dict(prop=prop, plan=plan), hs, cache)
    kind, msg = (res["violations"] or [(v["kind"], v["msg"])])[0]
    d = ROOT / "replays"
    d.mkdir(exist_ok=True)
    path = d / f"{prop}-seed{a.seed}-{v['index']}.json"
    path.write_text(json.dumps(dict(property=prop, seed=a.seed, index=v["index"], hashseed=hs, kind=kind, msg=msg,
                                    digest=res["digest"], minimise_runs=tries, plan=plan,
                                    original_plan=v["plan"], trace=res["trace"]), indent=1))
    print(f"violation kind={kind}\n  {msg}\n  reproduced={bool(res['violations'])}; "
          f"replay with: {PY} -m dst.replay {path}")
    return f"VIOLATION property={prop} replay={path}"


if __name__ == "__main__":
    raise SystemExit(main())
