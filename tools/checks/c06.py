def history(g, steps, caps):
    es, n, gone = [{"op": "begin"}], {}, set()
    xs = ["a", "b", "c"][:g.choice([1, 2, 3])]
    pops = g.randint(0, 3)
    for _ in range(steps):
        live = [x for x in sorted(n) if x not in gone]
        dead = [x for x in xs if x not in n]
        op = g.choice(["new", "set", "set", "set", "push", "push", "reset", "reset", "fill", "clear", "exists", "any", "copy", "assign", "move", "del"] + ["pop"] * pops)
        e = {"op": op}
        if op == "new":
            if not dead:
                continue
            e["x"], e["n"] = g.choice(dead), g.choice(caps)
            n[e["x"]] = e["n"]
        elif op in ("copy", "move"):
            if not dead or not live:
                continue
            e["x"], e["y"] = g.choice(dead), g.choice(live)
            n[e["x"]] = n[e["y"]]
            if op == "move":
                gone.add(e["y"])
        elif op == "assign":
            if not live:
                continue
            e["x"], e["y"] = g.choice(sorted(n)), g.choice(live)
            n[e["x"]] = n[e["y"]]
            gone.discard(e["x"])
        elif op == "del":
            if not n or g.randint(0, 3):
                continue
            e["x"] = g.choice(sorted(n))
            del n[e["x"]]
            gone.discard(e["x"])
        else:
            if not live:
                continue
            if op in ("fill", "clear") and g.randint(0, 2):
                continue
            x = e["x"] = g.choice(live)
            if op in ("set", "push", "reset", "exists"):
                k = g.randrange(6)
                if k == 0:
                    e["i"] = g.choice([n[x], n[x] + 1, n[x] + 7, n[x] + 8, n[x] | 7, (n[x] | 7) + 1, max(0, n[x] - 1)])
                elif k == 1 and g.randint(0, 1):
                    e["i"], e["big"], e["off"] = 1999999999, g.choice([31, 32, 33, 35, 36, 40, 62, 63]), g.randrange(max(1, n[x]))
                else:
                    e["i"] = g.randrange(n[x]) if n[x] else 0
        es.append(e)
    return es


def check(run):
    exe = run.build([("d_bits", "asan")])[("d_bits", "asan")]
    g = run.rng
    allp = run.model("MCBits", "MCBits_thorough.cfg" if run.thorough else "MCBits.cfg", emit=True)
    keep = run.n(5000, 100000)
    if len(allp) > keep:
        allp = g.sample(allp, keep)
    run.conform(exe, [[{"op": "begin"}] + p for p in allp], "TrBits", name="model-scripts")
    caps = list(range(0, 20)) + [23, 24, 25, 31, 32, 33, 63, 64, 65, 100]
    hs = [history(g, g.choice([10, 40, 100]), caps) for _ in range(run.n(600, 10000))]
    # every capacity, filled and emptied by pops
    for n in range(0, run.n(80, 300)):
        p = [{"op": "pop", "x": "a"} for _ in range(min(n, 20) + 1)]
        hs.append([{"op": "begin"}, {"op": "new", "x": "a", "n": n}, {"op": "fill", "x": "a"}] + p + [{"op": "copy", "x": "b", "y": "a"}, {"op": "clear", "x": "a"}, {"op": "pop", "x": "a"}, {"op": "pop", "x": "b"}]
                  + [{"op": "push", "x": "a", "i": i} for i in g.sample(range(n + 9), min(n, 9))] + [{"op": "pop", "x": "a"} for _ in range(10)])
    for n in (255, 256, 1000, 2049):
        ii = g.sample(range(n), 30)
        hs.append([{"op": "begin"}, {"op": "new", "x": "a", "n": n}] + [{"op": "set", "x": "a", "i": i} for i in ii] + [{"op": "pop", "x": "a"} for _ in range(5)]
                  + [{"op": "reset", "x": "a", "i": i} for i in ii[:25]] + [{"op": "pop", "x": "a"} for _ in range(26)] + [{"op": "any", "x": "a"}])
    # sizes beyond 8- and 16-bit counters
    for n in (255, 256, 257, 300, 1000, 2049) + ((65535, 65537) if run.thorough else (65545,)):
        ii = g.sample(range(n), 6) + [n - 1, 0]
        big = n > 60000
        hs.append([{"op": "begin"}, {"op": "new", "x": "a", "n": n}, {"op": "fill", "x": "a"}, {"op": "any", "x": "a"}] + [{"op": "reset", "x": "a", "i": i} for i in ii[-2 if big else 0:]]
                  + [{"op": "pop", "x": "a"}] * 2 + ([] if big else [{"op": "copy", "x": "b", "y": "a"}, {"op": "fill", "x": "a"}, {"op": "new", "x": "c", "n": 9}, {"op": "assign", "x": "c", "y": "b"}])
                  + [{"op": "exists", "x": "a", "i": n - 1}, {"op": "clear", "x": "a"}, {"op": "any", "x": "a"}, {"op": "pop", "x": "a"}, {"op": "push", "x": "a", "i": n - 1}, {"op": "pop", "x": "a"}])
    run.conform(exe, hs, "TrBits", name="random-histories")
    return run.finish("TLC explores all histories over two named sets with indices around the borders and shows that packed bytes implement the sets; the scripts of its transitions and longer random "
                      "histories run on the library, and TLC compares every answer and the membership of every index of every live set after every operation.",
                      ["moved-from sets are only assigned to or destroyed; capacities up to 2049"])
