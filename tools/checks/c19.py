from checks.c18 import USES, channel, conv, isi, noisy


def in_range(t, h, a, q, y):
    """No likelihood that matters leaves the range of the element type: a metric is normalised at every stage and differs between states by what at most
    the last len(h)-1 stages (before and after) contribute."""
    m = sum(map(abs, h)) * max(map(abs, a))
    d = [q * (abs(v) + m) ** 2 for v in y]
    w = 2 * len(h) - 1
    return max(sum(d[k:k + w]) for k in range(len(d))) < (120 if t == "f" else 950)


def check(run):
    exe = run.build([("d_chan", "asan")])[("d_chan", "asan")]
    g = run.rng
    es = []
    seen = {}
    for p in run.model("MCChannel", "MCChannel_thorough.cfg" if run.thorough else "MCChannel.cfg", emit=True):
        if p["op"] == "bcjr":
            c = {"op": "bcjr", "y": p["y"], "q": g.choice([1, 1, 2]), "row": g.randint(0, 1)}
        elif p["op"] == "enc":
            c = {"op": "enc", "s0": p["s0"], "x": [p["a"][d] for d in p["u"]]}
        else:
            continue
        seen.setdefault((tuple(p["h"]), tuple(p["a"])), []).append(c)
    for (h, a), cs in sorted(seen.items()):
        g.shuffle(cs)
        for k in range(0, len(cs), 6):
            t = "d" if any(c.get("q", 1) > 1 for c in cs[k:k + 6]) else g.choice("ddf")
            es.append({"op": "ch", "t": t, "s": 1, "h": list(h), "a": list(a), "use": g.choice(USES), "row": g.randint(0, 1), "calls": cs[k:k + 6]})
    for _ in range(run.n(400, 8000)):
        e = channel(g, g.choice("df"))
        h, a = e["h"], e["a"]
        for _ in range(g.choice([1, 2, 3])):
            x = [g.choice(a) if g.random() < 0.8 else g.randint(-9, 9) for _ in range(g.choice([1, 2, 3, 5, 9, 20]))]
            e["calls"].append({"op": "enc", "s0": g.randrange(len(a) ** (len(h) - 1)), "x": x})
        es.append(e)
    for _ in range(run.n(500, 8000)):
        e = channel(g, g.choice("dddf"), P=2)
        if e["t"] == "f":
            e["h"] = [g.choice([0, 1, 1, -1]) for _ in e["h"]][:3]
            e["a"], e["s"] = g.choice([[-1, 1], [0, 1], [1, -1]]), 1
        h, a, s = e["h"], e["a"], e["s"]
        big = sum(map(abs, h)) * max(map(abs, a)) + 3
        q = g.choice([1, 1, 2]) if big < 12 and e["t"] == "d" else 1
        for _ in range(g.choice([1, 1, 2])):
            x = [g.choice(a) for _ in range(g.choice([1, 2, 3, 5, 8, 12, 25]))]
            y = [min(big, max(-big, v)) for v in noisy(g, isi(h, a, x, 0), s)]
            if e["t"] == "f":
                y = [max(-3, min(3, v)) for v in y]
            # the exact numbers have about this many bits
            while len(y) > 1 and (q * sum((abs(v) + big) ** 2 for v in y) > 1500 or not in_range(e["t"], h, a, q, y)):
                y.pop()
            if big > 24 or not in_range(e["t"], h, a, q, y):
                continue
            e["calls"].append({"op": "bcjr", "y": y, "q": q, "row": g.randint(0, 1)})
            if g.random() < 0.2:
                e["calls"].append({"op": "mlse", "y": y + [0] * len(h), "s0": 0})
        if e["calls"]:
            es.append(e)
    g.shuffle(es)
    run.conform(exe, es, "TrChannel", name="channel")
    # long sequences, where unscaled metrics leave the range of the numbers, and lengths around the powers of two
    es = []
    for k in range(run.n(10, 120)):
        h, a = g.choice([([1, 1], [-1, 1]), ([1, -1], [1, -1]), ([1, 0, 1], [-1, 1]), ([1, 1, 1], [0, 1])])
        if k % 2 == 0:
            # received values beyond all outputs: the likelihood of every path falls at every stage
            n, up = 520, k // 2 % 2
            y = [(1 if up else -1) * g.choice([4, 4, 4, 3]) for _ in range(n)]
        else:
            n = g.choice([64, 65, 66, 127, 128, 129, 130, 192, 200, 256, 257])
            off = [0, 3, -3, 4][k // 2 % 4]
            y = [max(-4, min(4, v + off + g.choice([0, 0, 1, -1]))) for v in isi(h, a, [g.choice(a) for _ in range(n)], 0)]
        es.append({"op": "ch", "t": "d", "s": 1, "h": h, "a": a, "use": g.choice(USES), "row": g.randint(0, 1), "calls": [{"op": "bcjr", "y": y, "q": 1, "row": g.randint(0, 1)}]})
        x = [g.choice(a) for _ in range(n)]
        es.append({"op": "ch", "t": "d", "s": 1, "h": h, "a": a, "use": g.choice(USES), "row": 0, "calls": [{"op": "enc", "s0": 0, "x": x}]})
    run.conform(exe, es, "TrChannel", name="long-sequences")
    return run.finish("TLC checks on all small channels that the encoder's outputs are those of the trellis path back to its state, and that the forward and backward sums are the sums over "
                      "all sequences; these calls and random ones on larger channels run on the library at noise levels where the likelihoods are powers of two, and TLC compares every "
                      "output exactly and every likelihood ratio with the exact one (big numbers).",
                      ["ratios are compared up to 1e-9 (double) or 2e-4 (float); at most 16 trellis states and 29 samples, or 520 samples and 4 states"])
