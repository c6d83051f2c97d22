from genpool import text_of


def check(run):
    exe = run.build([("d_text", "asan")])[("d_text", "asan")]
    g = run.rng
    ts = run.model("MCText", "MCText_thorough.cfg" if run.thorough else "MCText.cfg", emit=True)
    cap = run.n(15000, 200000)
    if len(ts) > cap:
        ts = g.sample(ts, cap)
    al = lambda: g.choice(["std", "std", "log"])
    es = []
    for k, t in enumerate(ts):
        ty = "ifdbu"[k % 5]
        if ty == "u" and 45 in t:
            ty = "i"
        es.append({"op": "parse", "t": ty, "al": al(), "txt": t, "ps": 0 if ty in "ibu" else 3, "via": g.randint(0, 7)})
    for k in range(run.n(1500, 20000)):
        ty = "ifdbu"[k % 5]
        r, c = g.choice([(1, 1), (1, g.randint(1, 12)), (g.randint(1, 12), 1), (g.randint(1, 8), g.randint(1, 8))])
        if k % 25 == 0:
            r, c = g.choice([(1, 400), (400, 1), (30, 40), (2, 1500)])
        dec = g.choice([0, 1, 2, 3]) if ty in "fd" else 0
        hi = 10 ** (6 - dec) - 1 if ty == "f" else 99999 if ty != "b" else 99
        if ty in "fd":
            hi = min(hi, 99999)
        t = text_of(g, ty, r, c, lo=-hi, hi=hi, dec=dec)
        es.append({"op": "parse", "t": ty, "al": al(), "txt": t, "ps": 0 if ty in "ibu" else dec + 1, "via": g.randint(0, 7)})
    # more characters than a 16-bit index can count
    for r, c in ((1, 22000), (22000, 1)) if run.thorough else (g.choice([(1, 22000), (22000, 1)]),):
        es.append({"op": "parse", "t": "i", "al": "std", "txt": text_of(g, "i", r, c, lo=-99, hi=99), "ps": 0, "via": 0})
    # numbers with exponents
    for k in range(run.n(300, 3000)):
        r, c = g.randint(1, 4), g.randint(1, 4)
        num = lambda: "%s%d%s%s%d" % (g.choice(["", "-"]), g.randint(0, 99), g.choice(["", ".5", ".25"]), g.choice("eE"), g.randint(0, 2)) if g.randint(0, 1) else \
            "%s%d%s-%02d" % (g.choice(["", "-"]), g.randint(0, 999), g.choice("eE"), g.randint(1, 2))
        t = g.choice([";", "\n", " ; "]).join(g.choice([" ", ", ", "\t"]).join(num() for _ in range(c)) for _ in range(r))
        es.append({"op": "parse", "t": g.choice("fd"), "al": al(), "txt": [ord(x) for x in t], "ps": 4, "via": g.randint(0, 7)})
    # printing
    for k in range(run.n(3000, 40000)):
        ty = "ifdbu"[k % 5]
        r, c = g.choice([(1, 1), (1, g.randint(1, 12)), (g.randint(1, 12), 1), (g.randint(1, 6), g.randint(1, 6))])
        if k % 60 == 0:
            r, c = g.choice([(1, 700), (700, 1), (20, 30)])
        prec = 0
        if ty in "fd":
            prec = g.choice([0, 0, 0, 3, 8]) if ty == "d" else g.choice([0, 0, 3])
            e2 = g.choice([0, 0, -1, -2, -3, -4, -6, -9, -20, 1, 2, 3, 6, 12, 25])
            hi = 10 ** (prec or 6) - 1
            v = lambda: g.choice([0, 1, -1, 10, hi, -hi, g.randint(-hi, hi), g.randint(-hi, hi), g.randint(-99, 99), g.randint(0, hi // 10) * 10])
        else:
            e2 = 0
            lo, hi = {"i": (-2 ** 30 + 1, 2 ** 30 - 1), "b": (-128, 127), "u": (0, 255)}[ty]
            v = lambda: g.choice([lo, hi, 0, g.randint(lo, hi), g.randint(max(lo, -9), 9)])
        es.append({"op": "print", "t": ty, "al": al(), "x": {"r": r, "c": c, "d": [v() for _ in range(r * c)]}, "e2": e2, "prec": prec})
    g.shuffle(es)
    run.conform(exe, es, "TrText", name="text")
    return run.finish("TLC writes matrices as text in every way the grammar allows, up to a length, and shows that the reading rules give back what was written; each "
                      "of these texts, random long ones, and texts with decimals and exponents are read by the library through every constructor and assignment. "
                      "Random matrices of all real element types and magnitudes are printed; the specification reads the printed text, and the library's own reading must be equal.",
                      ["texts with a single pair of enclosing brackets and no row separator at the end; printed values have at most as many digits as the stream's precision"])
