#!/usr/bin/env python3
"""Development tool (no check uses it): turn a bug description into /verif/seeded/<id>/ after validating it.

usage: seed.py SEEDFILE [id ...]   validate (applies, tests pass, demo 0/nonzero), write, and run the property's check
SEEDFILE is a Python file defining SEEDS = {id: dict(property, edits=[(file, old, new)], demo, needs, breaks)}.
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

BASE = "865698f"
OUT = "/verif/seeded"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
STABLE = None


def sh(cmd, cwd, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env={**ENV, **(env or {})}, shell=True, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def original_lines(copy, diff):
    """Every hunk should change at least one line of the original repository."""
    bad = total = 0
    rc, blame = 0, {}
    cur, n = None, 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
            _, b = sh(f"git blame -s HEAD -- {cur}", copy)
            blame[cur] = [x.split()[0] for x in b.splitlines()]
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line)[1]) - 1
        elif line.startswith("-"):
            total += 1
            if not blame[cur][n].startswith("^" + BASE[:6]):
                bad += 1
            n += 1
        elif line.startswith(" "):
            n += 1
    return total - bad, bad


def do(sid, seed):
    copy = f"/tmp/sd/{sid}"
    shutil.rmtree(copy, ignore_errors=True)
    sh(f"cp -a /repo {copy}", "/")
    try:
        for f, old, new in seed["edits"]:
            p = f"{copy}/dissect/cstruct/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"{sid}: edit in {f} matches {s.count(old)} times"
            open(p, "w").write(s.replace(old, new))
        _, diff = sh("git diff", copy)
        orig, mine = original_lines(copy, diff)
        d = f"/tmp/sd/out_{sid}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.py", "w").write(seed["demo"].strip() + "\n")
        open(f"{d}/demo.sh", "w").write(
            '#!/bin/sh\n# cwd: the repository to demonstrate against\n'
            'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        r0, o0 = sh(f"bash {d}/demo.sh", "/repo", timeout=300)
        r1, o1 = sh(f"bash {d}/demo.sh", copy, timeout=300)
        rt, ot = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests", copy, {"PYTHONPATH": copy})
        last = ot.strip().splitlines()[-1] if ot.strip() else ""
        fails = [x for x in ot.splitlines() if x.startswith("FAILED")]
        ok = r0 == 0 and r1 != 0 and rt == 0
        msg = f"{sid} [{seed['property']}] demo {r0}/{r1} tests {rt} ({last}) orig-/other- {orig}/{mine} {'OK' if ok else 'REJECTED'}"
        if not ok:
            return msg + f"\n   {o0.strip()[-300:] if r0 else ''}\n   {' | '.join(fails[:3])}"
        shutil.rmtree(f"{OUT}/{sid}", ignore_errors=True)
        os.makedirs(OUT, exist_ok=True)
        shutil.copytree(d, f"{OUT}/{sid}")
        msg += f"  [{(o1.strip().splitlines() or [''])[-1][:100]}]"
        if not os.environ.get("NOCHECK"):
            rc, oc = sh(f"python3-vt run.py {seed['property']} --tier quick", "/verif", {"VERIF_REPO": copy, "VERIF_SEED": "1"})
            viol = [x for x in oc.splitlines() if x.startswith("VIOLATION")]
            msg += f"\n   check {seed['property']}: rc={rc} {'CAUGHT' if rc == 1 and viol else 'MISSED'} {viol[:1]}"
        return msg
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(f"/tmp/sd/out_{sid}", ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:] or list(ns["SEEDS"])
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for r in ex.map(lambda i: do(i, ns["SEEDS"][i]), ids):
            print(r, flush=True)
