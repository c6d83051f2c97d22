from genpool import *

TYPES = [("i", "std"), ("d", "std"), ("cd", "std"), ("b", "std"), ("u", "std"), ("f", "std"), ("cf", "std"), ("i", "log"), ("d", "log"), ("u", "log"), ("cd", "log")]


def scripts(run, cfg, keep):
    """Transitions of the specification as command histories for several element types."""
    allp = run.model("MCPool", cfg, emit=True)
    run.scripts_total = len(allp)
    if len(allp) > keep:
        allp = run.rng.sample(allp, keep)
    out = []
    for k, path in enumerate(allp):
        t, al = TYPES[k % len(TYPES)]
        cmds = [{"op": "begin", "t": t, "al": al}]
        for c in path:
            c = dict(c)
            if "v" in c and t[0] == "c":
                c["v"] = [c["v"], -c["v"]]
            c["via"] = run.rng.randint(0, 7)
            cmds.append(c)
        out.append(cmds)
    return out


def check(run):
    exe = run.build([("d_pool", "asan")])[("d_pool", "asan")]
    sc = scripts(run, "MCPool_quick.cfg" if not run.thorough else "MCPool_thorough.cfg", run.n(6000, 150000))
    run.conform(exe, sc, "TrPool", name="model-scripts")
    hs = []
    for k in range(run.n(220, 3000)):
        t, al = TYPES[k % len(TYPES)]
        w = [LIFE, mix(LIFE, SLICE), mix(LIFE, SLICE, ALG), mix(LIFE, ARITH)][k % 4]
        steps = run.rng.choice([8, 30, 60])
        if k % 4 == 3:
            w = {a: b for a, b in w.items() if a not in ("addto", "div", "divs")}
            steps = 10
        hs.append(history(run.rng, t, w, steps, al=al, slots=run.rng.choice([2, 3, 5]), maxdim=run.rng.choice([2, 4, 7])))
    for k in range(run.n(16, 160)):
        t, al = TYPES[k % len(TYPES)]
        hs.append(history(run.rng, t, mix(LIFE, SLICE, {"transpose": 3, "concat": 4, "fliplr": 2, "flipud": 2}), 8, al=al, slots=3, maxdim=run.rng.choice([20, 45, 70]), cap=5000))
    run.conform(exe, hs, "TrPool", name="random-histories")
    run.conform(exe, large(run.rng, LIFE, TYPES, 2, full=run.thorough), "TrPool", name="large")
    return run.finish("TLC explores MatrixStore exhaustively (2 names, shapes up to 2x2, 2 values), checks frame, copy and slicing laws, and prints "
                      "the script of every transition; a seeded sample of the scripts and random longer histories run on the real matrices, and TLC "
                      "checks every recorded step: full contents, shape and flags of every live matrix after every operation.",
                      ["observation through the public accessors"], {"scripts_in_model": run.scripts_total})
