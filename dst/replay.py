"""python -m dst.replay FILE: execute a replay file exactly; exit 1 if it still breaks the property."""
from __future__ import annotations

import json
import shutil
import sys
import tempfile

from dst.check import call


def main():
    f = json.load(open(sys.argv[1]))
    cache = tempfile.mkdtemp(prefix="dst-pyc-")
    try:
        res = call("one", dict(prop=f["property"], plan=f["plan"]), f.get("hashseed", 1), cache)
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    for t in res["trace"]:
        print("  ", t)
    if res["violations"]:
        kind, msg = res["violations"][0]
        same = "identical run" if res["digest"] == f.get("digest") else "different run"
        print(f"{kind}: {msg}\n({same})")
        print(f"VIOLATION property={f['property']} replay={sys.argv[1]}")
        return 1
    print("no violation")
    return 0


if __name__ == "__main__":
    raise SystemExit(main())
