from checks.c12 import mm, mul


def norm2(a):
    return sum(v * v for r in a for v in r)


def check(run):
    exe = run.build([("d_svd", "asan")])[("d_svd", "asan")]
    g = run.rng
    ms = run.model("MCSvd", "MCSvd_thorough.cfg" if run.thorough else "MCSvd.cfg", emit=True)
    e2 = lambda: g.choice([0, 0, 0, 0, -20, 20, -3, 5])
    es = []
    tr = lambda m: {"r": m["c"], "c": m["r"], "d": [m["d"][i * 1 + j * m["r"]] for i in range(m["r"]) for j in range(m["c"])]}
    for m in ms if len(ms) < run.n(2500, 99999) else g.sample(ms, 2500):
        es.append({"op": "svd", "x": m if g.randint(0, 1) else tr(m), "e2": e2(), "pre": g.randint(0, 2)})
    for _ in range(run.n(5000, 80000)):
        r, c = g.randint(1, 7), g.randint(1, 7)
        kind = g.randrange(8)
        hi = 3 if r * c > 30 else 8
        a = [[g.randint(-hi, hi) for _ in range(c)] for _ in range(r)]
        if kind == 0:                                  # low rank
            k = g.randint(1, min(r, c))
            a = mul([[g.randint(-1, 1) for _ in range(k)] for _ in range(r)], [[g.randint(-2, 2) for _ in range(c)] for _ in range(k)])
        elif kind == 1:
            a = [[g.choice([0, 0, 0, 1, -5]) for _ in range(c)] for _ in range(r)]
        elif kind == 2:                                # zero rows and columns
            i, j = g.randrange(r), g.randrange(c)
            a = [[0 if p == i or q == j else v for q, v in enumerate(x)] for p, x in enumerate(a)]
        elif kind == 3:
            v = g.choice([0, 1, -6])
            a = [[v] * c for _ in range(r)]
        elif kind == 4:                                # equal columns
            j = g.randrange(c)
            a = [[x[j]] * c if g.random() < 0.1 else x[:-1] + [x[0]] for x in a]
        elif kind == 5:                                # bidiagonal or triangular with zeros on the diagonal
            a = [[g.choice([0, 1, 4]) if i == j or i + 1 == j else 0 for j in range(c)] for i in range(r)]
        if norm2(a) >= 3600:
            continue
        es.append({"op": "svd", "x": mm(a), "e2": e2(), "pre": g.randint(0, 2)})
    g.shuffle(es)
    run.conform(exe, es, "TrSvd", name="svd")
    return run.finish("TLC checks the decomposition relation on all small decompositions that are known exactly (it accepts them and their variants and rejects "
                      "every perturbation of them); the same matrices and random, structured and rank-deficient ones of all shapes and many scales run on the library, "
                      "and TLC decides the relation, and the rank, in fixed point for every recorded decomposition.",
                      ["relative tolerances of about 6e-5 of the Frobenius norm; singular values below that count as zero"])
