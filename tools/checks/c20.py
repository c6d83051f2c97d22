SPECIAL = [0, 1, 2, 5489, 0xffffffff, 0x80000000, 0x7fffffff, 0x80000001, 0xfffffffe, 19650218, 0x10000, 0xffff, 0xdeadbeef, 12345, 0x9908b0df]


def hl(x):
    return [x >> 16, x & 65535]


def script(g, kind, h):
    """A history of the specification as a session for one kind of generator."""
    seeds = [g.choice(SPECIAL + [g.getrandbits(32)] * 5) for _ in range(2)]
    if g.randint(0, 3) == 0:
        seeds[0] = 5489
    s = [{"op": "begin"}]
    n = 0
    for a in h:
        if a[0] == "new":
            sd = seeds[a[1] - 1]
            for x in (1, 2):
                s.append({"op": "new", "k": kind, "x": x, "sd": [] if sd == 5489 and g.randint(0, 1) else hl(sd)})
        elif a[0] == "draw":
            s.append({"op": "words", "x": a[1], "n": a[2], "vec": g.randint(0, 1)})
        elif a[0] == "copy":
            s.append({"op": g.choice(["copy", "assign"]), "x": a[1], "y": 3 - a[1]})
        else:
            s.append({"op": "seed", "x": a[1], "sd": hl(seeds[a[2] - 1])})
    for x in (1, 2):
        s.append({"op": "words", "x": x, "n": g.choice([1, 3, 20, 700]), "vec": g.randint(0, 1)})
    return s


def random_session(g, kind, steps):
    s = [{"op": "begin"}]
    live = []
    for _ in range(steps):
        o = g.random()
        if not live or o < 0.1:
            x = g.randint(1, 4)
            s.append({"op": "new", "k": kind, "x": x, "sd": [] if g.randint(0, 3) == 0 else hl(g.choice(SPECIAL + [g.getrandbits(32)] * 9))})
            live = sorted(set(live) | {x})
        elif o < 0.2:
            x, y = g.randint(1, 4), g.choice(live)
            s.append({"op": "copy", "x": x, "y": y})
            live = sorted(set(live) | {x})
        elif o < 0.3:
            s.append({"op": "assign", "x": g.choice(live), "y": g.choice(live)})
        elif o < 0.4:
            s.append({"op": "seed", "x": g.choice(live), "sd": hl(g.choice(SPECIAL + [g.getrandbits(32)] * 9))})
        else:
            s.append({"op": "words", "x": g.choice(live), "n": g.choice([1, 1, 2, 10, 226, 227, 228, 396, 397, 398, 623, 624, 625, 1247, 1248, 1249]), "vec": g.randint(0, 1)})
    return s


def check(run):
    exe = run.build([("d_rng", "asan")])[("d_rng", "asan")]
    g = run.rng
    hs = run.model("MCMT", "MCMT_thorough.cfg" if run.thorough else "MCMT.cfg", emit=True)
    ss = []
    for k, h in enumerate(hs):
        ss.append(script(g, "mt" if k % 2 else "rng", h))
    for kind in ("mt", "rng"):
        for sd in SPECIAL:
            ss.append([{"op": "begin"}, {"op": "new", "k": kind, "x": 1, "sd": hl(sd)}, {"op": "words", "x": 1, "n": 1300, "vec": 1}])
        # re-seeding a running generator with every special seed, at several positions
        for sd in SPECIAL:
            s = [{"op": "begin"}, {"op": "new", "k": kind, "x": 1, "sd": hl(g.getrandbits(32))}, {"op": "new", "k": kind, "x": 2, "sd": []}]
            for n in (g.choice([0, 1, 5]), g.choice([622, 623]), 624, g.choice([625, 700])):
                if n:
                    s.append({"op": "skip", "x": 1, "n": n, "vec": g.randint(0, 1)})
                s += [{"op": "copy", "x": 3, "y": 1}, {"op": "seed", "x": 1, "sd": hl(sd)}, {"op": "words", "x": 1, "n": g.choice([1, 3, 630]), "vec": g.randint(0, 1)},
                      {"op": "words", "x": 3, "n": 2, "vec": 0}]
            s.append({"op": "words", "x": 2, "n": 3, "vec": 0})
            ss.append(s)
        # far beyond the range of 16-bit counters
        for n in [3000, 65530, 65536, 70000] + run.n([131072], [262144, 262144, 400000, 1 << 20]):
            s = [{"op": "begin"}, {"op": "new", "k": kind, "x": 1, "sd": hl(g.getrandbits(32))}, {"op": "skip", "x": 1, "n": n, "vec": g.randint(0, 1)}]
            ss.append(s + [{"op": "words", "x": 1, "n": 640, "vec": 0}])
        for _ in range(run.n(60, 1500)):
            ss.append(random_session(g, kind, g.randint(3, 12)))
        # far along the sequence, in steps of all sizes
        for _ in range(run.n(2, 10)):
            s = [{"op": "begin"}, {"op": "new", "k": kind, "x": 1, "sd": hl(g.getrandbits(32))}]
            for _ in range(run.n(10, 60)):
                s.append({"op": "words", "x": 1, "n": g.choice([1500, 2496, 3001]), "vec": g.randint(0, 1)})
            ss.append(s)
    for _ in range(run.n(10, 200)):
        ss.append(random_session(g, "std", 8))
    g.shuffle(ss)
    run.conform(exe, ss, "TrMT", name="generators")
    return run.finish("TLC checks the generator of the specification (published words, linearity over GF(2) of the tempering and the recurrence) and a state machine of two "
                      "generators that draw, are copied and re-seeded; its histories and random ones run on both generators of the library, and TLC computes every word. "
                      "The same histories run on the generator of the C++ library, to show that the specification is the standard one.",
                      ["seeds: the special values and random ones; up to about %d words of each sequence" % run.n(131000, 1050000)])
