KINDS = ["m4", "m8", "m1", "a4", "a8", "v4"]


def script(g, steps, top):
    own, out = {}, []
    for _ in range(steps):
        free, have = [o for o in range(4) if o not in own], sorted(own)
        op = g.choice(["new", "new", "copy", "assign", "assign", "resize", "del", "read", "read", "read"])
        e = {"op": op}
        if op == "new":
            if not free:
                continue
            e.update(o=g.choice(free), k=g.choice(KINDS), n=g.randint(1, top))
            own[e["o"]] = e["k"]
        elif op == "copy":
            if not free or not have:
                continue
            e.update(o=g.choice(free), y=g.choice(have))
            own[e["o"]] = own[e["y"]]
        elif op == "assign":
            pairs = [(o, y) for o in have for y in have if own[o] == own[y] != "v4"]
            if not pairs:
                continue
            e["o"], e["y"] = g.choice(pairs)
        elif op == "resize":
            c = [o for o in have if own[o][0] == "m"]
            if not c:
                continue
            e.update(o=g.choice(c), n=g.randint(1, top))
        elif op == "del":
            if not have:
                continue
            e["o"] = g.choice(have)
            del own[e["o"]]
        out.append(e)
    return out or [{"op": "read"}]


def sched(g, n, steps):
    sc = [script(g, g.randint(1, steps), 5) for _ in range(n)]
    for s in sc:
        for k, e in enumerate(s):
            # a failing allocation of an array or a vector; later commands do not use the object
            if e["op"] == "new" and e["k"][0] in "av" and g.random() < 0.3 and not any(f.get("o") == e["o"] or f.get("y") == e["o"] for f in s[k + 1:]):
                e["fail"] = 1
    return {"op": "sched", "scripts": sc, "sched": [g.randrange(n) for _ in range(g.randint(0, 12 * steps))]}


def check(run):
    g = run.rng
    b = run.build([("d_thr", "plain"), ("d_thr", "tsan"), ("d_thr", "asan")])
    run.control("MCTracker", "MCTracker_split.cfg")
    ps = run.model("MCTracker", "MCTracker_three.cfg", emit=True) + run.model("MCTracker", "MCTracker%s.cfg" % ("_thorough" if run.thorough else ""), emit=True, timeout=850)
    total = len(ps)
    keep = run.n(4000, 60000)
    if len(ps) > keep:
        ps = g.sample(ps, keep)
    for n in (2, 3, 4, 8, 16):
        run.conform(b[("d_thr", "plain")], [[{"op": "first", "threads": n, "procs": run.n(60, 800)}]], "TrTracker", racy=True, name="first-use-%d" % n, chunks=1)
    run.conform(b[("d_thr", "asan")], [[dict(p, op="sched")] for p in ps], "TrTracker", racy=True, name="model-schedules")
    run.conform(b[("d_thr", "asan")], [[sched(g, g.choice([2, 3, 3, 4]), g.choice([2, 4, 8]))] for _ in range(run.n(400, 6000))], "TrTracker", racy=True, name="random-schedules")
    runs = [[{"op": "run", "scripts": [script(g, g.choice([5, 20, 40]), g.choice([5, 300, 20000])) for _ in range(g.choice([2, 3, 3, 4]))]}] for _ in range(run.n(160, 4000))]
    run.conform(b[("d_thr", "plain")], runs, "TrTracker", racy=True, name="free-runs", chunks=2)
    st = [[{"op": "stress", "threads": n, "rounds": run.n(300000, 1500000), "top": t, "seed": g.randint(1, 10 ** 6)}] for n in (2, 4, 8, 16) for t in (5, 5000)]
    run.conform(b[("d_thr", "plain")], st, "TrTracker", racy=True, name="stress", chunks=1, cpu=400)
    st = [[{"op": "stress", "threads": n, "rounds": run.n(20000, 200000), "top": 300, "seed": g.randint(1, 10 ** 6)}] for n in (2, 4, 8)]
    run.conform(b[("d_thr", "tsan")], st + runs[:40], "TrTracker", racy=True, name="stress-tsan", chunks=2, cpu=400)
    return run.finish("TLC explores Tracker exhaustively for two and three threads: the counter is exact when all threads are done, and what the threads read is explained "
                      "by the effects of the calls at some moments between their starts and ends (a control with a counter that is loaded and stored in two steps violates "
                      "both). Every explored schedule is replayed with real threads that are held inside the heap functions; random schedules, free runs with logged calls, "
                      "long stress runs and the first use of the counter by several threads follow; TLC decides each with the same specification.",
                      ["a thread can be held only where the code calls the heap", "free runs sample the schedules of the machine"], {"schedules_in_model": total})
