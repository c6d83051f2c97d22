TYPES = [("i", "i"), ("d", "d"), ("cd", "cd"), ("b", "b"), ("f", "f"), ("cd", "d"), ("cf", "cf")]


class Gen:
    def __init__(self, g):
        self.g = g

    def val(self, t, s=1, hi=9):
        g = self.g
        if hi > 9 and t not in ("i", "d", "cd"):
            hi = 9
        one = lambda: g.choice([g.randint(-hi, hi) * s, g.randint(-hi * s, hi * s)])
        return [one(), one()] if t[0] == "c" else one()

    def mat(self, t, r, c, s=1, hi=9, d=None):
        return {"r": r, "c": c, "d": d if d is not None else [self.val(t, s, hi) for _ in range(r * c)]}

    def vec(self, t, n, s=1, hi=9, d=None, col=None):
        col = self.g.randint(0, 1) if col is None else col
        return self.mat(t, n, 1, s, hi, d) if col else self.mat(t, 1, n, s, hi, d)

    def ev(self, op, t, tt, s=1, **kw):
        e = {"op": op, "t": t, "tt": tt, "s": s, "al": self.g.choice(["std", "std", "log"])}
        e.update(kw)
        return e

    def case(self, t, tt, x, b=None, s=1, op=None):
        """One operation on the data x and the coefficients b."""
        g = self.g
        n = x["r"] * x["c"]
        b = b or self.vec(tt, g.randint(1, 6), hi=4)
        nb = b["r"] * b["c"]
        isv = 1 in (x["r"], x["c"]) and n > 1
        same = t == tt
        ops = ["filter", "filter"]
        if same:
            ops += ["kron", "upsample", "downsample"]
            if 1 in (b["r"], b["c"]):
                ops += ["conv", "conv"]
            if isv:
                ops += ["convmtx"]
            if isv or n == 1:
                ops += ["toeplitz1"]
                ops += ["toeplitz2"]
        op = op if op in ops else g.choice(ops)
        if op == "filter":
            fb, s2 = (b if b["r"] == 1 or b["c"] == 1 else {"r": 1, "c": nb, "d": b["d"]}), s
            na = g.choice([0, 0, 1, 2, 3]) if n < 30 else 0
            if na and s > 1 and t in ("f", "cf"):
                na = 0
            one = [1, 0] if tt[0] == "c" else 1
            lim = 1 if na > 1 or x["r"] * x["c"] > 12 else 2
            ad = [one] + [self.val(tt, hi=lim) if g.random() < 0.8 else ([0, 0] if tt[0] == "c" else 0) for _ in range(na)]
            a = self.vec(tt, na + 1, d=ad)
            return self.ev(op, t, tt, s2, x=x, b=fb, a=a, n=g.choice([0, 0, 1, 3, nb - 1]), dflt=g.randint(0, 1))
        if op == "conv":
            # scalar or vector coefficients, on either side
            if s == 1 and g.random() < 0.4 and (x["r"] == 1 or x["c"] == 1 or 1 in (b["r"], b["c"])):
                x, b = b, x
            return self.ev(op, t, tt, s, x=x, b=b)
        if op == "toeplitz2":
            m = g.choice([1, nb, g.randint(1, 7)])
            rd = [x["d"][0]] + [self.val(t, s) for _ in range(m - 1)]
            return self.ev(op, t, tt, s, x=x, b=self.vec(t, m, d=rd))
        if op == "kron":
            return self.ev(op, t, tt, s, x=x, b=b)
        if op == "convmtx":
            return self.ev(op, t, tt, s, x=x, n=g.choice([1, 2, nb, g.randint(1, 8)]))
        if op == "upsample":
            return self.ev(op, t, tt, s, x=x, n=g.randint(1, 5))
        if op == "downsample":
            return self.ev(op, t, tt, s, x=x, n=g.randint(1, x["r"]))
        return self.ev(op, t, tt, s, x=x)


def check(run):
    exe = run.build([("d_signal", "asan")])[("d_signal", "asan")]
    g = run.rng
    G = Gen(g)
    pairs = run.model("MCSignal", "MCSignal_thorough.cfg" if run.thorough else "MCSignal.cfg", emit=True)
    ev = []
    for k, q in enumerate(pairs):
        for op in ("filter", "conv", "convmtx", "toeplitz2", "toeplitz1", "kron", "upsample", "downsample"):
            t, tt = TYPES[len(ev) % len(TYPES)]
            if t[0] == "c" or tt[0] == "c":
                continue
            ev.append(G.case(t, tt, G.vec(t, len(q["b"]), d=q["b"]), G.vec(tt, len(q["a"]), d=q["a"]), op=op))
        t, tt = ("cd", "cd") if k % 2 else ("cf", "cf")
        f = lambda d: [[v, g.randint(-1, 1)] for v in d]
        ev.append(G.case(t, tt, G.vec(t, len(q["b"]), d=f(q["b"])), G.vec(tt, len(q["a"]), d=f(q["a"]))))
    if len(ev) > run.n(12000, 200000):
        ev = g.sample(ev, run.n(12000, 200000))
    run.conform(exe, ev, "TrSignal", name="model-sequences")
    ev = []
    for k in range(run.n(4000, 60000)):
        t, tt = TYPES[k % len(TYPES)]
        s = 4 if t in ("d", "cd", "f", "cf") and g.random() < 0.5 else 1
        r, c = g.choice([(1, 1), (1, g.randint(2, 12)), (g.randint(2, 12), 1), (g.randint(2, 6), g.randint(2, 5)), (2, 2)])
        if k % 60 == 0:
            r, c = g.choice([(1, 80), (70, 1), (20, 6)])
        b = None
        if g.random() < 0.2 and r * c < 40:
            b = G.mat(tt, g.randint(2, 3), g.randint(2, 3), hi=4)
        if g.random() < 0.15 and b is None:
            # more digits than float holds
            e = G.case(t, tt, G.mat(t, r, c, 1, hi=20000000), b, 1)
            if e["op"] in ("filter", "toeplitz2") and e.get("a", e["x"])["r"] * e.get("a", e["x"])["c"] > 1:
                continue
            ev.append(e)
            continue
        ev.append(G.case(t, tt, G.mat(t, r, c, s), b, s))
    # sizes beyond 8- and 16-bit indices
    for k in range(run.n(2, 20)):
        for op in ("filter", "conv", "convmtx", "toeplitz1", "toeplitz2", "kron", "upsample", "downsample"):
            t, tt = g.choice([("i", "i"), ("d", "d"), ("b", "b"), ("cd", "cd")])
            for r, c in ((1, g.choice([256, 300])), (g.choice([257, 300]), 1), (260, 3), (3, 260)):
                if op in ("convmtx", "toeplitz1", "toeplitz2"):
                    if r > 1 < c:
                        continue
                    if op == "toeplitz1":
                        c, r = (c if c == 1 else 257), (r if r == 1 else 257)
                x, b = G.mat(t, r, c), G.vec(tt, g.randint(2, 4), hi=4)
                if op in ("conv", "kron") and k % 2 and 1 in (r, c):
                    # the second operand is the long one
                    x, b = G.vec(t, 2), G.mat(tt, r, c, hi=4)
                ev.append(G.case(t, tt, x, b, op=op))
                if op == "convmtx" and k % 2:
                    ev[-1] = G.ev(op, t, tt, 1, x=G.vec(t, 3), n=258)
                if op in ("upsample", "downsample") and k % 2:
                    ev[-1]["n"] = 257 if op == "upsample" and r * c < 400 else min(r, 257)
                if op == "toeplitz2" and k % 2:
                    m = 260
                    x = G.vec(t, 3)
                    ev[-1] = G.ev(op, t, tt, 1, x=x, b=G.vec(t, m, d=[x["d"][0]] + [G.val(t) for _ in range(m - 1)]))
    for t in ("i", "d"):
        for op in ("filter", "conv", "kron"):
            ev.append(G.case(t, t, G.mat(t, *g.choice([(1, 12), (12, 1), (5, 2)])), G.vec(t, 260, hi=4), op=op))
    a = [1] + [0] * 258 + [2]
    ev.append(G.ev("filter", "i", "i", 1, x=G.vec("i", 270), b=G.vec("i", 2), a=G.vec("i", 260, d=a), n=3, dflt=0))
    ev.append(G.ev("kron", "i", "i", 1, x=G.vec("i", 2), b=G.vec("i", 65600)))
    for n, op in ((65600, "filter"), (65600, "conv"), (32800, "upsample"), (65600, "downsample"), (32800, "kron")):
        x = G.vec(*("i", n))
        b = G.vec("i", 2, hi=4)
        e = G.ev(op, "i", "i", x=x, b=b) if op in ("conv", "kron") else G.case("i", "i", x, b, op=op)
        if op in ("upsample", "downsample"):
            e["n"] = 2 if op == "upsample" or x["c"] == 1 else 1
        ev.append(e)
    run.conform(exe, ev, "TrSignal", name="random-operands")
    return run.finish("TLC checks the identities between filtering, convolution, convolution, Toeplitz and Kronecker matrices on all pairs of short sequences "
                      "and prints the pairs; they and random operands (rows, columns, matrices, scalars; integer with wrap-around, real, complex, complex data "
                      "with real coefficients) go through the library, and TLC decides every element of every result exactly.",
                      ["a(0) = 1 and equal corner elements of a Toeplitz matrix", "operands keep results exactly representable"], {"pairs_in_model": len(pairs)})
