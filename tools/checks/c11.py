from genpool import *
from checks.c01 import TYPES

TYPES = TYPES + [("n", "std"), ("l", "std")]
REAL = [x for x in TYPES if x[0][0] != "c"]


def ops_on(g, a, b, cx, det=True):
    """Every operation that is defined on matrices 0 and 1 of these shapes."""
    out = []
    (r, c), (r2, c2) = a, b
    if c == r2:
        out.append(("matmul", 0, 1))
    if c2 == r:
        out.append(("matmul", 1, 0))
    if c == c2 or r == r2:
        out += [("concat", 0, 1), ("concat", 1, 0)]
    out += [("kron", 0, 1), ("transpose", 0), ("transpose", 1), ("fliplr", 0), ("flipud", 0), ("fliplr", 1), ("flipud", 1), ("concat", 0, 0)]
    if r == c:
        out.append(("matmul", 0, 0))
    if cx:
        out += [("hermitian", 0), ("hermitian", 1)]
    elif det:
        if r == c:
            out.append(("det", 0))
        if r2 == c2:
            out.append(("det", 1))
    return out


def session(g, t, al, s, ma, mb, keep=99, det=True):
    cmds = [{"op": "begin", "t": t, "al": al, "s": s}, {"op": "load", "x": 0, "mm": ma, "via": 0}, {"op": "load", "x": 1, "mm": mb, "via": 0}]
    ops = ops_on(g, (ma["r"], ma["c"]), (mb["r"], mb["c"]), t[0] == "c", det)
    g.shuffle(ops)
    for o in ops[:keep]:
        e = {"op": o[0], "y": o[1], "x": 2, "via": g.randint(0, 7)}
        if len(o) > 2:
            e["z"] = o[2]
        if o[0] == "det":
            del e["x"]
            if s == 1 and t in ("i", "n", "l", "d") and g.randint(0, 1):
                e["f"] = g.choice([1000, 4096, 50000]) if max(ma["r"], mb["r"]) <= 3 else 100 if max(ma["r"], mb["r"]) <= 5 else 1
        cmds.append(e)
    return cmds


def check(run):
    exe = run.build([("d_pool", "asan")])[("d_pool", "asan")]
    g = run.rng
    pairs = run.model("MCAlg", "MCAlg_thorough.cfg" if run.thorough else "MCAlg.cfg", emit=True)
    total = len(pairs)
    if len(pairs) > run.n(9000, 80000):
        pairs = g.sample(pairs, run.n(9000, 80000))
    ss = []
    for k, q in enumerate(pairs):
        t, al = TYPES[k % len(TYPES)]
        if t in ("u", "n"):
            for m in (q["a"], q["b"]):
                m["d"] = [abs(v) for v in m["d"]]
        if t[0] == "c":
            for m in (q["a"], q["b"]):
                m["d"] = [[v, g.randint(-2, 2)] for v in m["d"]]
        ss.append(session(g, t, al, 1, q["a"], q["b"], keep=6))
    run.conform(exe, ss, "TrPool", name="model-matrices")
    ss = []
    for k in range(run.n(1500, 20000)):
        t, al = TYPES[k % len(TYPES)]
        s = 2 if t in ("d", "cd", "f") and k % 3 == 0 else 1
        r, c = g.choice([(1, 1), (1, g.randint(2, 8)), (g.randint(2, 8), 1), (g.randint(2, 6), g.randint(2, 6)), (4, 4), (5, 5), (3, 3)])
        k2 = g.randint(1, 6)
        r2, c2 = g.choice([(c, k2), (c, k2), (c, c), (r, k2), (k2, c), (r, c), (c, 1)])
        # products with more digits than float holds
        fine = s == 1 and t in ("i", "d", "cd", "l", "n") and g.random() < 0.2
        m = 6 if not fine else 8000
        f = lambda: g.randint(0 if t == "n" else -m, m) * (2 if s == 2 else 1)
        def one():
            v = f() if t != "u" else g.randint(0, 255)
            return [v, f()] if t[0] == "c" else v
        ma = {"r": r, "c": c, "d": [one() for _ in range(r * c)]}
        mb = {"r": r2, "c": c2, "d": [one() for _ in range(r2 * c2)]}
        if t == "u" and max(r, r2) > 3 or fine:
            # the determinant would exceed the integers of the specification
            ss.append(session(g, t, al, s, ma, mb, keep=5, det=False))
        else:
            ss.append(session(g, t, al, s, ma, mb, keep=5, det=s == 1 or max(r, r2) <= 4))
    for k in range(run.n(12, 150)):
        t, al = TYPES[k % len(TYPES)]
        n = g.randint(9, 24)
        m = g.choice([n, g.randint(9, 20)])
        one = lambda: [g.randint(-5, 5), g.randint(-5, 5)] if t[0] == "c" else g.randint(0, 5) if t in ("u", "n") else g.randint(-5, 5)
        ss.append([c for c in session(g, t, al, 1, {"r": n, "c": m, "d": [one() for _ in range(n * m)]}, {"r": m, "c": n, "d": [one() for _ in range(n * m)]}, det=False) if c["op"] != "kron"])
    # products with more than 255 rows or columns, or terms in a sum
    for a, b, c in ((2, 3, 300), (300, 2, 3), (3, 300, 2), (260, 1, 2), (1, 2, 260), (260, 2, 260) if run.thorough else (1, 260, 1)):
        t, al = g.choice([x for x in TYPES if x[0] in ("i", "d", "cd", "b", "l")])
        one = lambda: [g.randint(-5, 5), g.randint(-5, 5)] if t[0] == "c" else g.randint(-5, 5)
        ss.append([{"op": "begin", "t": t, "al": al, "s": 1}, {"op": "load", "x": 0, "mm": {"r": a, "c": b, "d": [one() for _ in range(a * b)]}, "via": 0},
                   {"op": "load", "x": 1, "mm": {"r": b, "c": c, "d": [one() for _ in range(b * c)]}, "via": 0}, {"op": "matmul", "x": 2, "y": 0, "z": 1, "via": 0}])
    for n in (2, 3, 4, 5, 6):
        cmds = [{"op": "begin", "t": "d", "al": "std", "s": 1}]
        for k in range(1, 14):
            cmds.append({"op": "eye", "x": 0, "p": [k], "via": 0})
        ss.append(cmds)
    hs = [history(g, TYPES[k % len(TYPES)][0], mix(ALG, {"load": 6, "row": 1, "left": 1}), 25, al=TYPES[k % len(TYPES)][1], slots=4, maxdim=g.choice([3, 5])) for k in range(run.n(60, 1500))]
    run.conform(exe, ss + hs, "TrPool", name="random-matrices")
    run.conform(exe, large(run.rng, ALG, TYPES, 2, full=run.thorough), "TrPool", name="large")
    return run.finish("TLC checks the identities of product, transpose, determinant, concatenation, flips and Kronecker product on all pairs of small matrices "
                      "and prints the pairs; they and random larger operands (integer, dyadic real, complex, 8-bit) run through every operation that is "
                      "defined on them on the real matrices, and TLC decides every recorded result exactly, with the operands unchanged.",
                      ["operands are chosen so that the exact result is representable"], {"operand_pairs_in_model": total})
