USES = ["plain", "copy", "assign", "clobber"]


def conv(x, h):
    """The received values of a signal (an input; the specification checks that it is one)."""
    r = [0] * (len(x) + len(h) - 1)
    for i, v in enumerate(x):
        for j, w in enumerate(h):
            r[i + j] += v * w
    return r


def syms(h, a, s):
    """The symbols of a state, oldest first."""
    return [a[s // len(a) ** k % len(a)] for k in range(len(h) - 1)][::-1]


def isi(h, a, x, s):
    n = len(h) - 1
    z = syms(h, a, s)
    return conv(z + x + z, h)[n:len(x) + 2 * n]


def channel(g, t, **kw):
    """A channel: taps, alphabet, scale; values stay small enough to be exact in the element type."""
    P = kw.get("P") or g.choice([2, 2, 2, 2, 3, 4, 4])
    L = kw.get("L") or g.choice({2: [1, 2, 2, 3, 4], 3: [1, 2], 4: [1, 2]}[P])
    s = g.choice([1, 1, 2, 4])
    k = g.randrange(4)
    if k == 0:
        a = {2: [-1, 1], 3: [-2, 0, 2], 4: [-3, -1, 1, 3]}[P]
        a = [v * s for v in a]
    elif k == 1:
        a = [v * s for v in ([1, -1] if P == 2 else g.sample([-3, -1, 1, 3, 0], P))]
    else:
        a = g.sample(range(-5, 6), P)
    if not kw.get("distinct") and g.random() < 0.05:
        a[1] = a[0]
    h = [g.randint(-4, 4) for _ in range(L + 1)]
    k = g.randrange(6)
    if k == 0:
        h = sorted((abs(v) for v in h), reverse=True)
    elif k == 1:
        h[g.randrange(L + 1)] = 0
    elif k == 2:
        h = [s] + [0] * L
    if kw.get("distinct") and h[0] == 0:
        h[0] = g.choice([-1, 1, 2])
    return {"op": "ch", "t": t, "s": s, "h": h, "a": a, "use": g.choice(USES), "row": g.randint(0, 1), "calls": []}


def noisy(g, y, s):
    k = g.randrange(4)
    if k == 0:
        return [v + g.randint(-2, 2) for v in y]
    if k == 1:
        return [v + g.choice([0, 0, 0, 9, -9]) for v in y]
    if k == 2:
        return [g.randint(-12, 12) for _ in y]
    return y


def check(run):
    exe = run.build([("d_chan", "asan")])[("d_chan", "asan")]
    g = run.rng
    es = []
    seen = {}
    for p in run.model("MCChannel", "MCChannel_thorough.cfg" if run.thorough else "MCChannel.cfg", emit=True):
        if p["op"] == "mlse":
            c = {"op": "mlse", "s0": p["s0"], "y": p["y"], "row": g.randint(0, 1)}
        elif p["op"] == "enc":
            c = {"op": "link", "s0": p["s0"], "x": [p["a"][d] for d in p["u"]], "full": 0}
            if p["h"][0] and len(set(p["a"])) == len(p["a"]) and len(p["u"]) >= len(p["h"]) + 1 and g.randint(0, 1):
                c["full"] = 1
        else:
            continue
        seen.setdefault((tuple(p["h"]), tuple(p["a"])), []).append(c)
    for (h, a), cs in sorted(seen.items()):
        cs = [c for k, c in enumerate(cs) if c not in cs[:k]]
        g.shuffle(cs)
        for k in range(0, len(cs), 8):
            es.append({"op": "ch", "t": g.choice("df"), "s": 1, "h": list(h), "a": list(a), "use": g.choice(USES), "row": g.randint(0, 1), "calls": cs[k:k + 8]})
    for _ in range(run.n(700, 12000)):
        e = channel(g, g.choice("ddf"))
        h, a, s = e["h"], e["a"], e["s"]
        for _ in range(g.choice([1, 1, 2, 4])):
            s0 = g.randrange(len(a) ** (len(h) - 1))
            x = [g.choice(a) for _ in range(g.choice([1, 2, 3, 5, 8, 12]))]
            e["calls"].append({"op": "mlse", "s0": s0, "y": noisy(g, isi(h, a, x, s0), s), "row": g.randint(0, 1)})
            if g.random() < 0.3:
                e["calls"].append({"op": "link", "s0": s0, "x": x, "full": 0})
        es.append(e)
    for _ in range(run.n(500, 8000)):
        e = channel(g, g.choice("ddf"), distinct=True)
        h, a, s = e["h"], e["a"], e["s"]
        for _ in range(g.choice([1, 1, 3])):
            x = [g.choice(a) for _ in range(len(h) + g.choice([1, 1, 2, 3, 6, 15]))]
            e["calls"].append(g.choice([{"op": "clean", "x": x, "y": conv(x, h)}, {"op": "link", "x": x, "full": 1, "s0": 0},
                                        {"op": "mlse", "s0": 0, "y": conv(x, h)}]))
        es.append(e)
    for _ in range(run.n(6, 60)):
        e = channel(g, "d", distinct=True, P=2)
        x = [g.choice(e["a"]) for _ in range(120)]
        e["calls"] = [{"op": "mlse", "s0": 1, "y": noisy(g, isi(e["h"], e["a"], x, 1), 1)}, {"op": "clean", "x": x, "y": conv(x, e["h"])}]
        es.append(e)
    # more stages than an 8-bit index can count
    for k in range(run.n(4, 40)):
        e = channel(g, "d", distinct=True, P=2)
        x = [g.choice(e["a"]) for _ in range(g.choice([256, 257, 300, 600]))]
        e["calls"] = [{"op": "mlse", "s0": 1, "y": noisy(g, isi(e["h"], e["a"], x, 1), 1)}, {"op": "clean", "x": x, "y": conv(x, e["h"])}, {"op": "link", "s0": 0, "x": x, "full": 0}]
        es.append(e)
    g.shuffle(es)
    run.conform(exe, es, "TrChannel", name="viterbi")
    return run.finish("TLC explores the Viterbi algorithm as a state machine (every received value in every stage, every way to break ties) on all small channels and shows that each "
                      "survivor is a best sequence and that noise-free outputs determine the symbols; the received words, and random ones on larger channels, run on the library, and TLC "
                      "compares the distance of every returned sequence with the exact minimum.",
                      ["values are small dyadic numbers, so that all distances are exact; any best sequence is accepted; at most 16 trellis states and 600 stages"])
