from genpool import *
from checks.c01 import TYPES


def check(run):
    exe = run.build([("d_pool", "asan")])[("d_pool", "asan")]
    paths = run.model("MCSlice", "MCSlice.cfg", emit=True)
    sess = []
    for k, path in enumerate(paths):
        # every script for int, and for one more type in turn
        for t, al in {("i", "std"), TYPES[(k + run.seed) % len(TYPES)]}:
            cmds = [{"op": "begin", "t": t, "al": al}]
            for c in path:
                c = dict(c, via=run.rng.randint(0, 7))
                if t in "bu" or t[0] == "c":
                    f = (lambda v: [v, -v]) if t[0] == "c" else (lambda v: v % 100)
                    if "v" in c:
                        c["v"] = f(c["v"])
                    if "mm" in c:
                        c["mm"] = dict(c["mm"], d=[f(v) for v in c["mm"]["d"]])
                cmds.append(c)
            sess.append(cmds)
    run.conform(exe, sess, "TrPool", name="model-scripts")
    hs = []
    for k in range(run.n(150, 2500)):
        t, al = TYPES[k % len(TYPES)]
        big = k % 5 == 0
        hs.append(history(run.rng, t, mix(SLICE, {"load": 8, "newrcv": 2, "del": 2}), 10 if big else 40, al=al, slots=4,
                          maxdim=run.rng.choice([15, 40]) if big else run.rng.choice([3, 6, 9]), cap=2000 if big else 90))
    run.conform(exe, hs, "TrPool", name="random-histories")
    run.conform(exe, large(run.rng, SLICE, TYPES, 2, full=run.thorough), "TrPool", name="large")
    return run.finish("TLC enumerates every indexing, slicing and rearranging call on every shape up to 5x5, checks the laws that tie them together, "
                      "and every call is replayed on the real matrices (int and one more element type each); random histories add larger shapes. "
                      "TLC checks every recorded result, the returned value and the full contents of every live matrix.", exhaustive_note())


def exhaustive_note():
    return ["observation through the public accessors"]
