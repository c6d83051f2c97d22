def ev(g, op, t, r, c, d, s=1):
    return {"op": op, "t": t, "al": g.choice(["std", "std", "log"]), "s": s, "again": g.randint(0, 1), "x": {"r": r, "c": c, "d": d}}


def check(run):
    exe = run.build([("d_fft", "asan")])[("d_fft", "asan")]
    g = run.rng
    xs = run.model("MCFourier", "MCFourier.cfg", emit=True)
    es = []
    for k, x in enumerate(xs):
        n = len(x)
        for op in ("radix2", "dft"):
            r, c = (n, 1) if (k + len(es)) % 2 else (1, n)
            es.append(ev(g, op, "d" if k % 3 else "f", r, c, x))
    # all unit vectors and constants of every size
    for n in list(range(1, 20)) + [24, 31, 32, 45, 63, 64]:
        for k in {0, 1 % n, n - 1, g.randrange(n), g.randrange(n)}:
            d = [0] * n
            d[k] = g.choice([1, -3, 7])
            es.append(ev(g, "dft", g.choice("df"), n, 1, d))
            if n & (n - 1) == 0:
                es.append(ev(g, "radix2", g.choice("df"), 1, n, d))
    for k in range(run.n(900, 12000)):
        op = "radix2" if k % 3 else "dft"
        n = g.choice([1, 2, 4, 8, 16, 32]) if op == "radix2" else g.randint(1, 24)
        if k % 40 == 0:
            n = 64
        c = g.choice([1, 1, 2, 3]) if n > 1 else g.randint(1, 4)
        if op == "radix2" and n == 1 and c == 3:
            c = 1
        s = g.choice([1, 4])
        hi = min(40, 850 // n)
        d = [g.randint(-hi, hi) for _ in range(n * c)]
        if g.random() < 0.1:
            d = [hi] * (n * c)
        if c == 1 and g.randint(0, 1):
            es.append(ev(g, op, g.choice("df"), 1, n, d, s))
        else:
            es.append(ev(g, op, g.choice("df"), n, c, d, s))
    for n in [128, 256] * run.n(2, 20) + [512, 1024] * run.n(1, 6):
        d = [g.randint(-6, 6) if g.random() < 100 / n else 0 for _ in range(n)]
        es.append(ev(g, "radix2", g.choice("df"), *g.choice([(n, 1), (1, n)]), d))
        d[g.randrange(n)] = 5
        es.append(ev(g, "radix2", "d", n, 2, d + d[::-1]) if n < 300 else ev(g, "radix2", "d", n, 1, d))
    g.shuffle(es)
    run.conform(exe, es, "TrFourier", name="transforms")
    return run.finish("TLC explores the radix-2 algorithm over a finite field for every small input and all unit vectors up to size 32 and shows that it ends "
                      "with the Fourier sums; the same inputs, unit vectors of all sizes and random rows, columns and matrices run on the library, and TLC "
                      "compares every result with the Fourier sum in fixed point.",
                      ["results are compared up to about 6e-6 (double) or 1e-4 (float) of the sum of the magnitudes of the input"])
