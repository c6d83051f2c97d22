def event(t, n, d, s):
    return {"op": "dijkstra", "t": t, "mm": {"r": n, "c": n, "d": d}, "src0": s}


def check(run):
    exe = run.build([("d_search", "asan")])[("d_search", "asan")]
    g = run.rng
    ev = []
    graphs = run.model("MCSearch", "MCSearch.cfg", emit=True)
    if run.thorough:
        graphs += run.model("MCSearch", "MCSearch_thorough.cfg", emit=True)
    total = len(graphs)
    if len(graphs) > run.n(9000, 200000):
        graphs = g.sample(graphs, run.n(9000, 200000))
    for k, q in enumerate(graphs):
        ev.append(event("idnlub"[k % 6], q["g"]["r"], q["g"]["d"], q["s"]))
    run.conform(exe, ev, "TrSearch", name="model-graphs")
    ev = []
    for k in range(run.n(1500, 20000)):
        n = g.choice([1, 2, 4, 5, 6, g.randint(7, 14)]) if k % 30 else g.randint(15, 24)
        t = g.choice("idnlub")
        p = g.choice([0.1, 0.25, 0.5, 0.9])
        hi = g.choice([1, 2, 9, 127 if t == "b" else 250, 1000 if t not in "ub" else 100])
        if t == "b":
            hi = min(hi, 127)
        if t in "inl" and g.random() < 0.1:
            hi = 2 ** 31 // (n + 1)
        d = [g.randint(1, hi) if g.random() < p else 0 for _ in range(n * n)]
        if g.random() < 0.5:
            for i in range(n):
                d[i + i * n] = 0
        if g.random() < 0.3:
            # two parts without edges between them
            a = {v for v in range(n) if g.random() < 0.5}
            d = [w if ((x % n) in a) == ((x // n) in a) else 0 for x, w in enumerate(d)]
        if g.random() < 0.2:
            # a long chain with expensive shortcuts
            o = list(range(n))
            g.shuffle(o)
            d = [0] * (n * n)
            w = min(hi, 3)
            for a, b in zip(o, o[1:]):
                d[a + b * n] = w
            for _ in range(n):
                a, b = g.randrange(n), g.randrange(n)
                d[a + b * n] = d[a + b * n] or hi
        ev.append(event(t, n, d, g.choice([0, n - 1, g.randrange(n)])))
    # more nodes than an 8-bit index can name
    n = 262
    o = list(range(n))
    g.shuffle(o)
    d = [0] * (n * n)
    for a, b in zip(o, o[1:]):
        d[a + b * n] = g.randint(1, 9)
    for _ in range(3 * n):
        d[g.randrange(n) + g.randrange(n) * n] = g.randint(1, 900)
    ev.append(event(g.choice("idnl"), n, d, o[0]))
    run.conform(exe, ev, "TrSearch", name="random-graphs")
    return run.finish("TLC explores Dijkstra's algorithm with every choice among ties on all graphs of three nodes, checks it against the enumeration of all "
                      "paths, and prints every graph and source; they and random larger graphs run on the library, and TLC decides the returned predecessors "
                      "with shortest distances computed by relaxation; any shortest path is accepted.", ["path lengths stay below 2^31"], {"graphs_in_model": total})
