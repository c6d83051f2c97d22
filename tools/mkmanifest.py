#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed properties."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "default": ("TLA+ specification, TLC model checking and trace validation of the real code",
                "TLC checks the specification exhaustively within small constants and decides every recorded step of the real code, on scripts generated "
                "from the specification and on seeded random ones; nothing outside the explored inputs and histories is decided. Trusted: TLC, the "
                "translation of observations into JSON by the harness, the compiler and AddressSanitizer."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "tools", "checks", i.lower() + ".py")):
        t, n = NOTE.get(i, NOTE["default"])
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the public API exposes all the observed state. Checks build the harness and /repo's sources in /verif/work (ignored by git) and remove it."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
