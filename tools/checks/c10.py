TYPES = ["i", "d", "f", "b", "u", "cd", "cf"]
RED = ["sum", "mean", "min", "max", "norm"]
MAPS = ["abs", "sign", "log", "round"]
CX = ["sum", "mean", "abs", "real", "imag", "mag", "conj"]
SMOOTH = sorted({2 ** a * 3 ** b * 5 ** c * 7 ** d for a in range(8) for b in range(5) for c in range(4) for d in range(3) if 2 ** a * 3 ** b * 5 ** c * 7 ** d <= 19000})


def event(g, op, t, mat, al="std"):
    """mat: a function of (low, high) limits for the elements (before scaling) giving a matrix."""
    fl = t in ("d", "f", "cd", "cf")
    s = 4 if fl else 1
    e = {"op": op, "t": t, "al": al, "s": s, "q": s, "k": 1, "ex": 1}
    lo, hi = {"b": (-127, 127), "u": (0, 255)}.get(t, (-99 * s, 99 * s))
    if op == "mean" and t in ("b", "u"):
        lo, hi = (0, 12) if t == "u" else (-6, 6)
    if op == "norm":
        lo, hi = {"b": (-2, 2), "u": (0, 3)}.get(t, (-40 * s, 40 * s))
    if op == "abs" and t == "b":
        lo = -127
    if op == "log":
        e["s"], e["q"], e["ex"] = (8, 100000000 if t == "d" else 1000000, 0)
    if op == "round":
        e["t"], e["s"], e["q"], e["ex"], e["al"] = "d", 10000, 10000, 0, "std"
        lo, hi = -400000, 400000
        d = g.choice([None, -1, 0, 1, 2, 3, 4, 7])
        if d is not None:
            e["dec"] = d
    fine = t in ("i", "d", "cd") and op in ("sum", "min", "max", "sign", "real", "imag", "conj", "mean") + (("abs",) if t != "cd" else ()) and g.random() < 0.3
    if fine:
        # more digits than float holds
        n = mat(0, 1)
        n = n["r"] * n["c"]
        hi = 900000000 // n if op != "mean" or t == "i" else 900000000 // n // 1000
        lo = -hi
    m = mat(lo, hi)
    if op == "log":
        m["d"] = [g.choice(SMOOTH) for _ in m["d"]]
    if op == "round":
        # also the neighbourhood of ties and values that are already rounded
        step = 10 ** (4 - max(0, min(4, e.get("dec", -1))))
        m["d"] = [g.choice([v, v // step * step, v // step * step + step // 2 + g.choice([-1, 1])]) for v in m["d"]]
    e["mm"] = m
    n = m["r"] * m["c"] if 1 in (m["r"], m["c"]) else m["r"]
    if fl and op == "mean":
        e["k"] = 1000 if n <= 10 else 100
        e["q"], e["ex"] = e["s"] * n * e["k"], 0
    if fl and op == "norm":
        e["k"] = 20 if n <= 40 else 1
        e["q"], e["ex"] = e["s"] * e["k"], 0
    if t[0] == "c" and op == "abs":
        e["k"] = 50
        e["q"], e["ex"] = e["s"] * 50, 0
    if op == "mag":
        e["q"] = s * s
    return e


def ops_of(t):
    if t[0] == "c":
        return CX
    return RED + ["abs", "sign"] + (["log", "to_complex"] if t in ("d", "f") else []) + (["round"] if t == "d" else [])


def vec_event(g, op, t, v):
    s = 4 if t in ("d", "f") else 1
    e = {"op": op, "t": t, "s": s, "q": s, "k": 1, "ex": 1, "v": v}
    n = len(v)
    if s != 1:
        if op == "vmean":
            e["k"], e["ex"] = 1000 if n <= 10 else 100, 0
            e["q"] = s * n * e["k"]
    if op == "vvar":
        e["k"], e["ex"] = g.choice([1, 4]), 0
        e["q"] = s * s * n * n * e["k"]
    if op == "vstdv":
        x = n * sum(a * a for a in v) - sum(v) ** 2
        e["k"] = max(k for k in (1, 2, 5, 10, 20, 50, 100, 400) if k == 1 or k * k * x < 10 ** 9)
        e["ex"], e["q"] = 0, s * n * e["k"]
    return e


def check(run):
    exe = run.build([("d_stat", "asan")])[("d_stat", "asan")]
    g = run.rng
    mats = run.model("MCStat", "MCStat_thorough.cfg" if run.thorough else "MCStat.cfg", emit=True)
    g.shuffle(mats)
    ev = []
    for k, m in enumerate(mats[:run.n(1200, 60000)]):
        t = TYPES[k % len(TYPES)]
        for op in ops_of(t):
            def mat(lo, hi, m=m, t=t, op=op):
                f = lambda v: (v + 2 if t == "u" else v) if op != "round" else v * 5000
                d = [[f(v), g.choice([-2, 0, 1])] if t[0] == "c" else f(v) for v in m["d"]]
                return {"r": m["r"], "c": m["c"], "d": d}
            ev.append(event(g, op, t, mat, "log" if k % 3 == 0 else "std"))
    run.conform(exe, ev, "TrStat", name="model-matrices")
    ev = []
    for k in range(run.n(4000, 60000)):
        t = TYPES[k % len(TYPES)]
        op = g.choice(ops_of(t))
        shape = g.choice([(1, 1), (1, g.randint(2, 12)), (g.randint(2, 12), 1), (g.randint(2, 6), g.randint(2, 6)), (g.randint(2, 3), g.randint(2, 9))])
        if k % 50 == 0:
            shape = g.choice([(1, 300), (200, 1), (300, 1), (3, 260), (257, 3), (20, 30), (60, 4)])
            if op in ("mean", "norm"):
                shape = g.choice([(1, 60), (60, 2)])
        few = g.random() < 0.3

        def mat(lo, hi):
            if few:
                pal = [g.randint(lo, hi) for _ in range(2)]
                one = lambda: g.choice(pal)
            else:
                one = lambda: g.randint(lo, hi)
            if op in ("mean",) and t in ("b", "u") and shape[0] * shape[1] > 9:
                one = lambda: g.randint(0, 1)
            if op == "norm" and t in ("b", "u") and shape[0] * shape[1] > 9:
                one = lambda: g.choice([0, 0, 1])
            n = shape[0] * shape[1]
            return {"r": shape[0], "c": shape[1], "d": [[one(), one()] if t[0] == "c" else one() for _ in range(n)]}
        if op == "norm" and t in ("b", "u") and max(shape) > 100:
            continue
        ev.append(event(g, op, t, mat, g.choice(["std", "log"])))
    for k in range(run.n(2500, 40000)):
        t = ["i", "d", "f", "b", "u"][k % 5]
        op = g.choice(["vsum", "vmean", "vvar", "vstdv", "vabs", "vdiff"])
        n = g.choice([1, 2, 3, g.randint(4, 12), g.randint(10, 20)])
        lo, hi = {"b": (-3, 3), "u": (0, 5)}.get(t, (-40, 40) if op in ("vvar", "vstdv") else (-300, 300))
        if t == "u" and op == "vdiff":
            v = sorted(g.randint(0, 255) for _ in range(n))
        elif g.random() < 0.15:
            v = [g.randint(lo, hi)] * n
        elif g.random() < 0.2 and t != "u":
            v = [g.randint(lo, -1) for _ in range(n)]
        else:
            v = [g.randint(lo, hi) for _ in range(n)]
        ev.append(vec_event(g, op, t, v))
    # sizes beyond 8- and 16-bit indices
    for r, c in ((1, 300), (300, 1), (260, 2), (2, 260), (1, 65600), (65600, 1), (2, 65600), (65600, 2)):
        big = r * c > 60000
        for op in ("sum", "min", "max", "abs", "sign", "mean"):
            if big and op not in ("sum", g.choice(["min", "max"]), "sign"):
                continue
            w = [g.randint(-9, 9) for _ in range(r * c)]
            w[g.choice([-1, -2, r * c - 3])] = g.choice([-30, 30])
            ev.append(event(g, op, "i" if big or op == "mean" else g.choice("ib"), lambda lo, hi: {"r": r, "c": c, "d": w}))
        if not big:
            for t in ("d", "cd"):
                for op in ("log", "to_complex", "sign", "abs") if t == "d" else ("real", "imag", "conj", "mag", "abs"):
                    ev.append(event(g, op, t, lambda lo, hi: {"r": r, "c": c, "d": [[g.randint(-99, 99), g.randint(-99, 99)] if t == "cd" else g.randint(-99, 99) for _ in range(r * c)]}))
    ev.append(event(g, "round", "d", lambda lo, hi: {"r": 1, "c": 300, "d": [g.randint(lo, hi) for _ in range(300)]}))
    for n in (257, 300, 65600):
        for op in ("vsum", "vabs", "vdiff") + (("vmean",) if n < 1000 else ()):
            ev.append(vec_event(g, op, "i", [g.randint(-9, 9) for _ in range(n)]))
    run.conform(exe, ev, "TrStat", name="random-operands")
    return run.finish("TLC checks the laws of the reductions on all small matrices and prints them; they and random operands of all shapes, element types "
                      "and both allocators go through every reduction and map of the library, and TLC decides every result: exactly for integers and dyadic "
                      "reals, up to a unit of the stated scale where a quotient, a root or a logarithm is taken.",
                      ["operands are chosen so that sums and squares are exact in the element type", "natural logarithm decided for arguments with prime factors up to 7"],
                      {"matrices_in_model": len(mats)})
