from checks.c20 import hl, SPECIAL

ONE = 1 << 20


def probs(g):
    n = g.choice([2, 2, 3, 4, 5, 8, 13])
    k = g.randrange(4)
    if k == 0:
        q = n * [ONE // n]
    elif k == 1:
        q = [g.randint(0, 9) for _ in range(n)]
        t = sum(q) or 1
        q = [v * ONE // t for v in q]
    else:
        q = sorted(g.randint(0, ONE) for _ in range(n - 1))
        q = [b - a for a, b in zip([0] + q, q + [ONE])]
    q[g.randrange(n)] += ONE - sum(q)
    if g.randint(0, 2) == 0 and n > 2:
        i, j = g.sample(range(n), 2)
        q[i] += q[j]
        q[j] = 0
    return {"r": n, "c": 1, "d": q} if g.randint(0, 1) else {"r": 1, "c": n, "d": q}


def session(g, kind, steps, big):
    s = [{"op": "begin"}, {"op": "new", "k": kind, "x": 1, "sd": [] if g.randint(0, 5) == 0 else hl(g.choice(SPECIAL + [g.getrandbits(32)] * 12))}]
    s.append({"op": "words", "x": 1, "n": g.choice([1, 2, 5, 600, 617, 623, 624, g.randint(1, 624)]), "vec": 1})
    live, setp, old = [1], set(), []

    def again():
        """Probabilities like the ones before, in another order."""
        if old and g.random() < 0.5:
            p = dict(g.choice(old))
            p["d"] = g.sample(p["d"], len(p["d"]))
        else:
            p = probs(g)
        old.append(p)
        return p

    for _ in range(steps):
        x = g.choice(live)
        n = g.choice([1, 1, 2, 3, 4, 5, 8, 21, big])
        o = g.random()
        e = {"x": x, "n": n, "vec": g.randint(0, 1)}
        if o < 0.08:
            e.update(op="words")
        elif o < 0.18:
            m = g.choice([1, 3, 7, 15, 255, 0xffff, 0x10000, 0x80000000, 0xf0f0f0f0, 0, 0xffffffff, g.getrandbits(32)])
            e.update(op="mask", mask=hl(m))
        elif o < 0.34:
            e.update(op="rand")
            if kind == "rng" and g.randint(0, 2) == 0:
                r, c = g.randint(1, 6), g.randint(1, 6)
                e.update(r=r, c=c, n=r * c)
        elif o < 0.54:
            e.update(op="randn")
            if kind == "mt":
                e["vec"] = 1
        elif o < 0.58 and len(live) < 3:
            y = len(live) + 1
            e = {"op": "copy", "x": y, "y": x}
            live.append(y)
            if x in setp:
                setp.add(y)
        elif o < 0.62:
            e = {"op": "seed", "x": x, "sd": hl(g.getrandbits(32))}
            if kind == "mt":
                setp.discard(x)
        elif kind == "rng":
            e.update(op="bits")
        elif o < 0.7:
            e.update(op="randint", max=g.choice([1, 2, 6, 100, 1000, 999983]))
        elif o < 0.8:
            e.update(op="bern", p=g.choice([0, 1, ONE, ONE - 1, ONE // 2, ONE // 10, g.randint(0, ONE)]))
        elif o < 0.86:
            e = {"op": "setp", "x": x, "p": again()}
            setp.add(x)
        else:
            m = g.choice(["arg", "set", "vec"])
            if m == "set" and x not in setp:
                m = "vec"
            e.update(op="nonu", m=m)
            if m != "set":
                e["p"] = again()
        s.append(e)
    for x in live:
        s.append({"op": "words", "x": x, "n": 3, "vec": 0})
    return s


def check(run):
    exe = run.build([("d_rng", "asan")])[("d_rng", "asan")]
    g = run.rng
    run.model("MCVariates", "MCVariates.cfg")
    ss = []
    for k in range(run.n(400, 6000)):
        ss.append(session(g, "mt" if k % 2 else "rng", g.randint(4, 14), run.n(40, 150)))
    for k in range(run.n(6, 60)):
        for op in ("randn", "rand"):
            for kind in ("mt", "rng"):
                ss.append([{"op": "begin"}, {"op": "new", "k": kind, "x": 1, "sd": hl(g.getrandbits(32))}, {"op": op, "x": 1, "n": 600 + k, "vec": 1}, {"op": "words", "x": 1, "n": 2, "vec": 0}])
    # more outcomes than an 8-bit index can count
    for k in range(run.n(4, 40)):
        n = g.choice([256, 257, 300, 520])
        q = [g.randint(0, 9) for _ in range(n)] if k % 2 else [1] * n
        q[-1] += 5
        q = [v * ONE // sum(q) for v in q]
        q[-1] += ONE - sum(q)
        p = {"r": n, "c": 1, "d": q} if k % 3 else {"r": 1, "c": n, "d": q}
        ss.append([{"op": "begin"}, {"op": "new", "k": "mt", "x": 1, "sd": hl(g.getrandbits(32))}, {"op": "setp", "x": 1, "p": p}]
                  + [{"op": "nonu", "x": 1, "n": 60, "vec": 1, "m": m, **({"p": p} if m != "set" else {})} for m in ("arg", "set", "vec")] + [{"op": "words", "x": 1, "n": 2, "vec": 0}])
    g.shuffle(ss)
    run.conform(exe, ss, "TrMT", name="variates")
    return run.finish("TLC checks the decision rules of the variates on the specification (every word falls in exactly one index of a discrete distribution, the logarithm and the polar "
                      "method in fixed point); histories that mix all kinds of draws run on both generators, and TLC computes every variate from the words of the Mersenne "
                      "Twister that it consumes, so that a word too many or too few shows in all later draws.",
                      ["probabilities are multiples of 2^-20; Gaussian values are compared up to 2e-3 in their square"])
