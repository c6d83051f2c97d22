import math


def check(run):
    exe = run.build([("d_mod", "asan")])[("d_mod", "asan")]
    g = run.rng
    ys = {}
    for p in run.model("MCMod", "MCMod.cfg", emit=True):
        ys.setdefault(p["m"], []).append(p["y"])
    es = []
    dbs = lambda: [g.randint(-40, 60) for _ in range(6)]
    for m, v in sorted(ys.items()):
        k = max(1, len(v) // run.n(25, 120))
        for j in range(k):
            es.append({"op": "qam", "m": m, "y": v[j::k], "db2": dbs(), "copy": g.randint(0, 1)})
    for _ in range(run.n(150, 1500)):
        m = 2 ** g.randint(1, 8)
        y = []
        for _ in range(10):
            d = g.choice([3, 16, 60, 200, 6000])
            y.append([g.randint(-d, d), g.randint(-d, d)])
        es.append({"op": "qam", "m": m, "y": y, "db2": dbs(), "copy": g.randint(0, 1)})
    for m in (512, 1024) * run.n(1, 8):
        es.append({"op": "qam", "m": m, "y": [[g.randint(-300, 300), g.randint(-300, 300)] for _ in range(3)], "db2": dbs(), "copy": 0})
    # every order with every level from -20 to 30 dB
    for b in range(1, 9):
        es.append({"op": "qam", "m": 2 ** b, "y": [[1, 3]], "db2": list(range(-40, 61)), "copy": 0})
    es.append({"op": "bpsk", "x": {"r": 16, "c": 16, "d": list(range(256))}})
    for r, c in ((1, 300), (300, 1), (260, 3), (3, 260), (1, 65600), (65600, 1)):
        es.append({"op": "bpsk", "x": {"r": r, "c": c, "d": [g.choice([0, 1, 0, 1, g.randint(0, 255)]) for _ in range(r * c)]}})
    for _ in range(run.n(300, 3000)):
        r, c = g.randint(1, 6), g.randint(1, 9)
        es.append({"op": "bpsk", "x": {"r": r, "c": c, "d": [g.choice([0, 1, 0, 1, g.randint(0, 255)]) for _ in range(r * c)]}})
    for k in range(run.n(56, 600)):
        t = ["i", "b", "u", "f", "d", "cf", "cd"][k % 7]
        r, c = g.choice([(2000, 1), (1, 2000), (50, 40), (3, 4), (1, 1), (1, 7), (2000, 1)]) if k % 3 else (2000, 1)
        s = 1 if t in "ibu" else 4
        hi = {"i": g.choice([3, 500]), "b": 100, "u": 200}.get(t, g.choice([4, 60]))
        v = lambda: g.randint(0 if t == "u" else -hi, hi)
        kind = g.randrange(3)
        el = (lambda: v()) if kind else (lambda: hi)
        d = [[el(), v()] if t[0] == "c" else el() for _ in range(r * c)]
        db2, ovs = g.randint(-20, 40), g.choice([1, 1, 2, 4, 5])
        p = sum((x[0] ** 2 + x[1] ** 2) if t[0] == "c" else x * x for x in d) / s / s / (r * c)
        sig = math.sqrt(max(p, 1e-9) * ovs / 2 / 10 ** (db2 / 20))
        q = max(1, round(300 / sig)) if p else 1
        if 2 * s * s * 12 > 2e9 or (r * c >= 2000 and sig * q > 450):
            continue
        es.append({"op": "awgn", "t": t, "al": g.choice(["std", "log"]), "s": s, "x": {"r": r, "c": c, "d": d}, "db2": db2, "ovs": ovs, "q": q, "dflt": g.randint(0, 1)})
    g.shuffle(es)
    run.conform(exe, es, "TrMod", name="modulation")
    return run.finish("TLC checks the constellations of all orders, the decision rule on a grid of received values and the table of decibels; the same grid and random "
                      "values run on the library, and TLC decides the constellation as a set, every decision by exact squared distances, every noise deviation by "
                      "exact big-number arithmetic, and the shape and the power of the noise.",
                      ["the noise is random: its power, mean and correlation are compared within statistical bounds (8% of the power) for signals of at least 2000 samples",
                       "the order of the points in the constellation is left open"])
