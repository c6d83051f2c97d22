#!/usr/bin/env python3
"""check.py Cxx  -- decide one property on /repo's current working tree.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken;
exit 2: the machinery failed (no verdict).

check.py --replay FILE  -- run a recorded counterexample again.
"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        run = lib.Run(d["property"], "quick", 1)
        try:
            name, variant = d["driver"].split(".")
            exe = run.build([(name, variant)])[(name, variant)]
            r = run._chunk(exe, d["sessions"], d["spec"], d["cfg"], "replay", d["fill"], d.get("env"), None)
            lines = open(r["tr"]).read().splitlines()
            if r["ok"]:
                print("the trace is accepted")
                return 0
            print("rejected at event %d: %s" % (r["pos"] + 1, lines[min(r["pos"], len(lines) - 1)][:2000]))
            return 1
        finally:
            run.cleanup()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = lib.Run(pid, tier, seed)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        return mod.check(run)
    except lib.CheckError as e:
        print("CHECK ERROR: %s" % e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if "--keep" not in sys.argv:
            run.cleanup()


if __name__ == "__main__":
    sys.exit(main())
