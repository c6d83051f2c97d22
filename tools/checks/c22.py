import itertools

LIM = {"b": (-128, 127), "u": (0, 255), "i": (-2 ** 31 + 1, 2 ** 31 - 1), "l": (-2 ** 31 + 1, 2 ** 31 - 1), "n": (0, 2 ** 31 - 1), "d": (-1523, 1523), "f": (-627, 627)}


def event(g, op, t, d, col, p2=0):
    n = len(d)
    e = {"op": op, "t": t, "mm": {"r": n, "c": 1, "d": d} if col else {"r": 1, "c": n, "d": d}}
    if p2:
        e["p2"] = 1
    if op in ("select_least", "select_most"):
        e["n"] = g.choice([1, n, g.randint(1, n)])
    if op == "select_limited_least":
        ix = g.sample(range(n), g.randint(1, n))
        e["ix"], e["row"] = ix, g.randint(0, 1)
        e["n"] = g.choice([1, len(ix), g.randint(1, len(ix))])
    if op == "find":
        e["v"] = g.choice(d) if g.random() < 0.75 else (d[0] + 1 if d[0] < 100 else d[0] - 1)
    return e


OPS = ["sort", "sort_indices", "select_least", "select_most", "select_limited_least", "find"]


def check(run):
    exe = run.build([("d_search", "asan")])[("d_search", "asan")]
    g = run.rng
    run.model("MCSearch", "MCSearch_sort.cfg")
    ev = []
    # all small vectors, up to their order
    types = ["i", "d", "b", "l", "f"]
    k = 0
    for n in (2, 3, 4) if not run.thorough else (2, 3, 4, 5):
        for d in itertools.product((-2, 0, 3), repeat=n):
            for op in OPS:
                t = types[k % len(types)]
                k += 1
                e = event(g, op, t, list(d), k % 2)
                ev.append(e)
                if op.startswith("select_l") or op == "select_most":
                    ev.append(dict(e, n=n if op != "select_limited_least" else len(e["ix"])))
    for k in range(run.n(5000, 80000)):
        t = "ibudfln"[k % 7]
        op = OPS[(k // 7) % 6]
        n = g.choice([2, 3, g.randint(4, 9), g.randint(9, 40)]) if k % 40 else g.randint(60, 140)
        lo, hi = LIM[t]
        p2 = 1 if t in "df" and g.random() < 0.4 else 0
        if t in "df" and not p2:
            lo, hi = -10 ** 6, 10 ** 6
        pal = [g.randint(lo, hi), lo, hi, 0, 1]
        if t != "u" and t != "n":
            pal += [-1, -5, 5]
        if p2:
            pal += [1524, -1524] if t == "d" else [628, 500, 300]
        kind = g.random()
        if kind < 0.3:
            d = [g.choice(pal) for _ in range(n)]
        elif kind < 0.5:
            a, b = g.choice(pal), g.choice(pal)
            d = [g.choice([a, b]) for _ in range(n)]
        elif kind < 0.7:
            d = [max(lo, min(hi, g.randint(-6, 6))) for _ in range(n)]
        else:
            d = [g.randint(lo, hi) for _ in range(n)]
        if not p2 and t in "idln" and g.random() < 0.2:
            # values that float, or a wrapped difference, cannot tell apart
            b = g.choice([2 ** 30, 10 ** 9, 2 ** 24 + 1, 1899999990]) * (-1 if t != "n" and g.randint(0, 1) else 1)
            d = [b + g.randint(-3, 3) if g.random() < 0.8 else g.choice([0, -b if t != "n" else 1]) for _ in range(n)]
        if kind > 0.9:
            d.sort(reverse=g.random() < 0.5)
        if p2 and t == "f":
            d = [v if abs(v) >= 380 else 0 for v in d]
        e = event(g, op, t, d, g.randint(0, 1), p2)
        if op == "find" and e["v"] not in d and p2:
            e["v"] = 560
        ev.append(e)
    run.conform(exe, ev, "TrSearch", name="vectors")
    # lengths beyond 8 bits, and for find() beyond 16 bits
    ev = []
    for k in range(run.n(36, 240)):
        n = g.choice([255, 256, 257, 258, 260, 300, 513])
        t = "idlnf"[k % 5]
        d = [g.randint(0, 10 ** 6) for _ in range(n)] if k % 3 else [g.randint(0, 400) for _ in range(n)]
        if k % 4 == 0:
            d[-1] = min(d) - (1 if t != "n" else 0)
        e = event(g, OPS[k % 6], t, d, g.randint(0, 1))
        if "n" in e:
            e["n"] = min(e["n"], g.choice([3, 257, 300, 513]))
        if e["op"] == "find" and g.randint(0, 1):
            e["v"] = d[-1]
        ev.append(e)
    for op in ("select_least", "select_most", "select_limited_least"):
        n = 65600
        d = [g.randint(5, 9) for _ in range(n)]
        d[n - 7], d[n - 30] = (1, 2) if op != "select_most" else (20, 15)
        e = event(g, "find", "i", d, 1)
        e.update(op=op, n=2)
        if op == "select_limited_least":
            e["ix"], e["row"] = g.sample(range(n - 64), 40) + [n - 30, n - 7], 0
        ev.append(e)
    for k in range(run.n(4, 20)):
        n = g.choice([65536, 65537, 65600, 70000])
        d = [g.randint(0, 5) for _ in range(n)] if k % 2 else [7] * (n - 1) + [8]
        ev.append(dict(event(g, "find", "bi"[k % 2] if k % 3 else "i", d, 1), v=d[-1]))
    run.conform(exe, ev, "TrSearch", name="long-vectors")
    return run.finish("TLC checks the definitions of sorting and selection against each other on small vectors; all vectors of up to four elements over three "
                      "values and random longer ones of seven element types, with ties and the limits of the types, are sorted, indexed, selected and searched "
                      "by the library, and TLC decides every result; any order among ties is accepted.")
