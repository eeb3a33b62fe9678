"""Plant seeded bugs: make and confirm /verif/seeded/<id>/ from specifications.

    plant.py SPEC.py [ID ...]

A specification file holds BUGS, a list of dicts: id, property, needs, breaks,
edits (list of (file under src/upstage_des, old, new)) and demo (Python source,
exits nonzero when the property is broken).  Each is tried in a scratch copy of
/repo: the existing tests must pass with it, the demo must pass without it and
fail with it.  Only then is it written.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
OUT = "/verif/seeded"
SH = """#!/bin/bash
# run with cwd at the repository: 0 when the behaviour is right
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec timeout 120 %s "$(dirname "$0")/demo.py"
""" % PY


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)


def failing(work):
    r = sh([PY, "-m", "pytest", "src/upstage_des", "-q", "-o", "addopts=", "-p", "no:cacheprovider",
            "-x", "-n0"] if False else
           [PY, "-m", "pytest", "src/upstage_des", "-q", "-o", "addopts=", "-p", "no:cacheprovider"],
           work, PYTHONPATH=work + "/src")
    return r.returncode, "\n".join(r.stdout.splitlines()[-6:])


def plant(b, work):
    sh(["git", "checkout", "-q", "--", "."], work)
    d = os.path.join(OUT, b["id"])
    tmp = tempfile.mkdtemp(prefix="seedw")
    with open(tmp + "/demo.py", "w") as f:
        f.write(b["demo"])
    with open(tmp + "/demo.sh", "w") as f:
        f.write(SH)
    os.chmod(tmp + "/demo.sh", 0o755)
    try:
        r = sh(["bash", tmp + "/demo.sh"], work)
        if r.returncode:
            return "demo fails on the unchanged tree\n" + r.stdout[-1500:] + r.stderr[-1500:]
        for file, old, new in b["edits"]:
            p = os.path.join(work, "src/upstage_des", file)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{file}: {s.count(old)} occurrences of {old!r}"
            open(p, "w").write(s.replace(old, new))
        r = sh(["bash", tmp + "/demo.sh"], work)
        if not r.returncode:
            return "demo passes with the bug"
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        rc, out = failing(work)
        if rc:
            return "tests fail with the bug\n" + out
        diff = sh(["git", "diff"], work).stdout
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        with open(d + "/patch.diff", "w") as f:
            f.write(diff)
        with open(d + "/meta.json", "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"],
                       "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
        return "planted (%s)" % "".join(why)
    finally:
        shutil.rmtree(tmp)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    base = tempfile.mkdtemp(prefix="plant")
    work = base + "/repo"
    shutil.copytree("/repo", work, symlinks=True)
    try:
        for b in bugs:
            if not only or b["id"] in only:
                print(b["id"], plant(b, work), flush=True)
    finally:
        shutil.rmtree(base)


if __name__ == "__main__":
    main()
