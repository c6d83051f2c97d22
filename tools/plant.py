#!/usr/bin/env python3
"""Planted bugs (used by hand, by no check).

plant.py take ID        the uncommitted change of /repo becomes seeded/ID/patch.diff, and is undone
plant.py verify ID...   apply the patch, build, run the tests, the demo and the check of its property, and undo it
"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("PLANT_REPO", "/repo")      # a clone may be used instead, with its own test script
TEST = os.environ.get("PLANT_TEST", "/opt/vp/test.sh")
SEEDS = os.environ.get("PLANT_SEEDS", os.path.join(V, "seeded"))
BASE = "64cfa14"
SH = """#!/bin/bash
# exit 0 when the behaviour is right
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -pthread -DSUSA_NDEBUG -I"$PWD/inc" "$d/demo.cpp" "$PWD"/src/*.cpp -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C %s checkout -- ." % R)


def verify(i, check=True):
    d = os.path.join(SEEDS, i)
    m = json.load(open(d + "/meta.json"))
    sh("git -C %s diff --quiet" % R).returncode and sys.exit("/repo is not clean")
    res = {}
    run = lambda: sh("bash %s/demo.sh" % d, cwd=R).returncode
    res["demo0"] = run()
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode:
        print(i, "DOES NOT APPLY", a.stdout)
        return
    try:
        # changed lines belong to the original repository
        own = []
        for f in sh("git -C %s diff --name-only" % R).stdout.split():
            bl = sh("git -C %s blame -s HEAD -- %s" % (R, f)).stdout.splitlines()
            for h in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", sh("git -C %s diff -U0 -- %s" % (R, f)).stdout, re.M):
                s, n = int(h[0]), int(h[1] or 1)
                for k in range(s, s + n):
                    c = bl[k - 1].split()[0].lstrip("^")
                    if sh("git -C %s merge-base --is-ancestor %s %s" % (R, c, BASE)).returncode:
                        own.append((f, k))
                if n == 0:
                    own.append((f, "insert only at %d" % s))
        res["own"] = own
        o = sh("bash "+TEST+" /tmp/plant.json >/dev/null 2>&1; python3 -c \"import json;d=json.load(open('/tmp/plant.json'));print(len(d['passed']),len(d['failed']))\"", cwd=R)
        res["tests"] = o.stdout.strip()
        res["demo1"] = run()
        if check:
            c = sh("VERIF_REPO=%s python3 %s/tools/check.py %s" % (R, V, m["property"]), cwd=V)
            res["check"] = c.returncode
            res["says"] = [l[:300] for l in c.stdout.splitlines() if "VIOLATION" in l or "rejected by" in l or "ERROR" in l]
    finally:
        clean()
    ok = res["demo0"] == 0 and res["demo1"] not in (0, 2) and res["tests"].startswith("81 ")
    print(i, m["property"], "VALID" if ok else "INVALID", "CAUGHT" if res.get("check") == 1 else "MISSED", json.dumps(res), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "take":
        d = os.path.join(SEEDS, sys.argv[2])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        if not os.path.exists(d + "/demo.sh"):
            open(d + "/demo.sh", "w").write(SH)
        clean()
    else:
        for i in sys.argv[2:]:
            verify(i, sys.argv[1] == "verify")
