"""Executes runs in this process (one hash seed).  Called by check.py and replay.py."""
from __future__ import annotations

import importlib
import json
import sys
import time


def load(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def main(argv):
    mode = argv[0]
    if mode == "explore":
        return explore(json.loads(argv[1]))
    if mode == "one":
        return one(json.loads(sys.stdin.read()))
    if mode == "shrink":
        return shrink(json.loads(sys.stdin.read()))
    raise SystemExit(2)


def explore(job):
    from dst import core

    mod = load(job["prop"])
    t0 = time.time()
    known = set(job["known"])
    out = dict(runs=0, nontrivial=0, steps=0, simtime=0.0, faults={}, covers={}, digests=[], shapes=[],
               samples=[], violation=None, known_hits={}, nd=0, rechecked=0, last=job["start"])
    from collections import Counter

    faults, covers = Counter(), Counter()
    digests, shapes = set(), set()
    for i in range(job["start"], job["stop"], job["stride"]):
        if time.time() - t0 > job["wall"]:
            break
        plan = mod.gen(core.seed_rng(job["seed"], job["prop"], i), job["tier"])
        r = core.execute(mod, plan)
        if r.violations and r.violations[0][0] == "hang":
            r = core.execute(mod, plan, wall=60.0)  # a long run is no hang
        out["last"] = i
        out["runs"] += 1
        out["steps"] += r.steps
        out["simtime"] += r.simtime if r.simtime < 1e9 else 0.0
        faults.update(r.faults)
        covers.update(r.covers)
        if r.nontrivial:
            out["nontrivial"] += 1
            digests.add(r.digest())
        shapes.add(r.shape())
        if len(out["samples"]) < 1 and r.nontrivial:
            r2 = core.execute(mod, plan, keep_trace=True)
            out["samples"].append(dict(index=i, plan=plan, trace=r2.trace[:40]))
        if r.violations:
            kind, msg = r.violations[0]
            if kind in known:
                out["known_hits"][kind] = out["known_hits"].get(kind, 0) + 1
                continue
            out["violation"] = dict(index=i, kind=kind, msg=msg, plan=plan)
            break
        if out["runs"] % 40 == 1:
            out["rechecked"] += 1
            if core.execute(mod, plan).digest() != r.digest():
                out["nd"] += 1
    out["faults"], out["covers"] = dict(faults), dict(covers)
    out["digests"], out["shapes"] = sorted(digests), sorted(shapes)
    out["wall"] = time.time() - t0
    print(json.dumps(out))
    return 0


def one(job):
    from dst import core

    mod = load(job["prop"])
    r = core.execute(mod, job["plan"], keep_trace=True, wall=60.0)
    print(json.dumps(dict(violations=r.violations, digest=r.digest(), trace=r.trace[-200:],
                          faults=dict(r.faults), steps=r.steps, simtime=r.simtime)))
    return 0


def shrink(job):
    from dst import core

    mod = load(job["prop"])
    plan, tries = core.minimise(mod, job["plan"], job["kind"])
    print(json.dumps(dict(plan=plan, tries=tries)))
    return 0


if __name__ == "__main__":
    raise SystemExit(main(sys.argv[1:]))
