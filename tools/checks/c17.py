from checks.c16 import octal, gens, USES


def event(g, m, gen, y, s, q, **kw):
    e = {"op": "dec", "m": m, "gen": gen, "y": y, "s": s, "q": q, "use": g.choice(USES), "row": g.randint(0, 1), "before": g.randint(0, 1), "twice": int(g.random() < 0.2)}
    if g.randint(0, 1):
        e["ck"] = g.choice([4, 2, 1, 6, 8])
    e.update(kw)
    return e


def encode(m, gen, u):
    """The sign of the code word (an input; the specification checks that it is one)."""
    s, out = 0, []
    for b in u:
        v = s | b << m
        out += [2 * (bin(v & int(str(x), 8)).count("1") % 2) - 1 for x in gen]
        s = s >> 1 | b << (m - 1)
    return out


def check(run):
    exe = run.build([("d_code", "asan")])[("d_code", "asan")]
    g = run.rng
    es = []
    ps = [p for p in run.model("MCCode", "MCCode_thorough.cfg" if run.thorough else "MCCode.cfg", emit=True) if p["op"] == "dec"]
    g.shuffle(ps)
    for p in ps[:run.n(1500, 20000)]:
        es.append(event(g, p["m"], p["gen"], p["y"], 1, g.choice([1, 1, 2, 3])))
    for k in range(run.n(500, 6000)):
        m = g.choice([1, 2, 2, 3, 3, 4])
        n = g.choice([1, 2, 2, 3, 4])
        st = m + g.choice([1, 2, 3, 5, 8])
        gen = gens(g, n, m)
        if g.randint(0, 1):
            gen = {2: [octal(5), octal(7)], 3: [octal(15), octal(17)], 1: [1, 3], 4: [octal(0o23), octal(0o35)]}[m]
        n = len(gen)
        q = g.choice([1, 1, 2, 4])
        s = q
        kind = g.randrange(4)
        u = [g.randint(0, 1) for _ in range(st - m)] + [0] * m
        c = encode(m, gen, u)
        kw = {}
        if kind == 0:
            y, s, q = c, 1, g.choice([1, 2, 3])
            kw["u"] = u
        elif kind == 1:
            y = [v * q + g.choice([0, 0, 1, -1, 2, -2, -q]) for v in c]
        elif kind == 2:
            y = [g.randint(-3, 3) for _ in c]
        else:
            y = [v * q if g.random() < 0.85 else -v * q for v in c]
        es.append(event(g, m, gen, y, s, q, **kw))
    # every message of some codes, noise-free
    for m, gen in ((1, [3, 1]), (2, [7, 5]), (3, [15, 17])):
        for v in range(2 ** run.n(5, 8)):
            u = [v >> i & 1 for i in range(run.n(5, 8))] + [0] * m
            es.append(event(g, m, gen, encode(m, gen, u), 1, g.choice([1, 2]), u=u))
    for _ in range(run.n(10, 60)):
        m = g.choice([2, 3])
        gen = {2: [7, 5], 3: [15, 17]}[m]
        u = [g.randint(0, 1) for _ in range(40)] + [0] * m
        y = [v + g.choice([0, 0, 0, -1, 1]) for v in encode(m, gen, u)]
        es.append(event(g, m, gen, y, 1, 1))
    g.shuffle(es)
    run.conform(exe, es, "TrCode", name="decoder")
    # long blocks, where unscaled metrics leave the range of the numbers, and blocks around the powers of two
    es = []
    for k in range(run.n(10, 120)):
        m = g.choice([1, 2, 2, 3]) if k % 2 else g.choice([1, 2])
        gen = {1: [3, 1], 2: [7, 5], 3: [15, 17]}[m]
        n = g.choice([700, 900]) if k % 2 == 0 else g.choice([64, 65, 127, 128, 129, 200, 256, 257, 300])
        u = [g.randint(0, 1) for _ in range(n - m)] + [0] * m
        weak = lambda v: v if g.random() < 0.1 else 0
        if k % 2 == 0:
            f, ck = [lambda v: 0, weak, lambda v: v][k // 2 % 3], [1, 1, 64][k // 2 % 3]
        else:
            f, ck = [lambda v: v, lambda v: v + g.choice([0, -1, 1]), lambda v: g.choice([-1, 0, 0, 0, 1])][k // 2 % 3], g.choice([1, 8, 64])
        es.append(event(g, m, gen, [f(v) for v in encode(m, gen, u)], 1, 1, ck=ck, twice=0))
    run.conform(exe, es, "TrCode", name="long-blocks")
    return run.finish("TLC checks on all small codes and received words that the forward and backward sums over the trellis are the sums over all terminated paths and that the "
                      "bits of noise-free words are the more likely ones; the same and longer received words run on the decoder at noise levels where all likelihoods are powers of "
                      "two, and TLC compares every returned ratio with the exact one (big numbers), up to one part in 10^9.",
                      ["received values and noise levels are such that the likelihoods are exact powers of two; at most 43 stages and 16 states, or 900 stages and 8 states"])
