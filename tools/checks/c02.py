import genpool
from genpool import ALG, ARITH, LIFE, SLICE, mix
from record import record

OTHERS = ["C01", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C24", "C25", "C26"]
LOGGED = ["i", "d", "u", "cd"]


def twice(cmds, nassert=None):
    """A history that runs twice (the second time nothing is left to warm up) and a closing begin."""
    b = {"op": "begin"} if nassert is not None else dict(cmds[0])
    rest = cmds if nassert is not None else cmds[1:]
    return [dict(b, chk=0)] + rest + [dict(b, chk=0)] + rest + [dict(b, chk=1)]


def script(g, path, nassert):
    """Concrete arguments for a script of the model."""
    out = []
    for e in path:
        e = dict(e, nassert=nassert)
        if e["op"] == "new" and e["k"] == "m":
            e["how"] = g.randint(0, 3)
        e["sz"] = {2: 4, 3: 8}.get(e.get("sz"), 4)
        if e["fail"]:
            e["fail"] = g.choice([1, 1, 2, 3])
        out.append(e)
        if g.random() < 0.3:
            out.append({"op": "use", "x": e["x"], "fail": 0, "nassert": nassert})
    return out


def history(g, nassert, steps, prob, big=False):
    xs = ["a", "b", "c", "d"][:g.choice([1, 2, 3, 4])]
    live, es = {}, []
    for _ in range(steps):
        op = g.choice(["new", "new", "new", "new0", "fill", "text", "copy", "copy", "move", "assign", "assign", "assign", "swap", "tmp", "resize", "resize", "load", "parse", "use", "del", "del"])
        x, y = g.choice(xs), g.choice(xs)
        e = {"op": op, "x": x, "fail": 0, "nassert": nassert}
        if op in ("new", "new0", "fill", "text"):
            if x in live:
                continue
            e["k"] = "m" if op == "text" else g.choice(["m", "m", "a", "v"])
            e["sz"] = g.choice([1, 4, 8]) if op == "text" else g.choice([1, 4, 8, 16])
            e["how"] = g.randint(0, 3)
            live[x] = (e["k"], e["sz"])
        elif op in ("copy", "move"):
            if x in live or y not in live or x == y:
                continue
            e["y"] = y
            live[x] = live[y]
        elif x not in live:
            continue
        elif op in ("assign", "swap"):
            if live.get(y) != live[x] or (op == "swap" and x == y and g.random() < 0.7):
                continue
            e["y"] = y
        elif op == "del":
            del live[x]
        if op in ("new", "fill", "text", "tmp", "resize", "load", "parse"):
            top = 40 if big else 5
            e["r"], e["c"] = g.randint(1, top), g.randint(1, top)
            if op == "load":
                e["c"] = 1
                e["r"] = g.randint(1, 200 if big else 9)
            if op == "new" and e["k"] == "m" and e["how"] == 0 and g.random() < 0.5:
                e["c"] = 1
            e["n"] = e["r"] * e["c"]
            # more memory than any machine has
            if op in ("new", "resize", "tmp") and prob and g.random() < 0.08:
                e.update(huge=1, n=0, fail=1)
        if prob and "huge" not in e and op not in ("move", "use", "del", "new0") and g.random() < prob:
            e["fail"] = g.choice([1, 1, 2, 2, 3, 4, 6])
        es.append(e)
    return es


def leaks(run, build, keep):
    """The commands of the other checks again, with the live heap blocks counted."""
    wanted, got = set(), []
    for pid in OTHERS:
        for exe, sessions, spec, env in record(pid, run.seed):
            if sessions and exe[1] == "asan":
                if len(sessions) > keep:
                    sessions = run.rng.sample(sessions, keep)
                got.append((pid, exe, sessions, env))
                wanted.add(exe)
    b = run.build(sorted(wanted))
    for k, (pid, exe, sessions, env) in enumerate(got):
        ss = []
        for s in sessions:
            if s[0]["op"] == "begin":
                ss.append(s + [dict(s[0], warm=1)] + s[1:] + [s[0]])
            else:
                ss.append(s)
        run.conform(b[exe], ss, "TrLeak", name="leaks-%s-%d" % (pid, k), env=dict(env or {}, DRV_LEAK="1"), chunks=min(8, max(1, sum(map(len, ss)) // 100)))


def check(run):
    g = run.rng
    exe = run.build([("d_mem", "asan"), ("d_mem", "nassert"), ("d_pool", "asan")])
    sc = run.model("MCMemory", "MCMemory%s.cfg" % ("_thorough" if run.thorough else ""), emit=True)
    total = len(sc)
    if len(sc) > run.n(1500, 20000):
        sc = g.sample(sc, run.n(1500, 20000))
    for variant, na in (("asan", 0), ("nassert", 1)):
        ss = [twice(script(g, p, na), na) for p in sc]
        run.conform(exe[("d_mem", variant)], ss, "TrMemory", name="model-scripts-" + variant, env={"DRV_LEAK": "1"})
        hs = [twice(history(g, na, g.choice([6, 15, 40]), [0, 0.15, 0.4][k % 3], k % 5 == 4), na) for k in range(run.n(240, 4000))]
        run.conform(exe[("d_mem", variant)], hs, "TrMemory", name="random-histories-" + variant, env={"DRV_LEAK": "1"})
    hs = []
    for k in range(run.n(64, 1000)):
        w = [LIFE, mix(LIFE, SLICE), mix(LIFE, SLICE, ALG), mix(LIFE, ARITH, {"transpose": 2})][k % 4]
        if k % 4 == 3:
            w = {a: b for a, b in w.items() if a not in ("addto", "div", "divs")}
        h = genpool.history(g, LOGGED[k % len(LOGGED)], w, g.choice([8, 30, 60]) if k % 4 != 3 else 10, al="log", slots=g.choice([2, 3, 5]), maxdim=g.choice([2, 4, 7]))
        hs.append([dict(e, mem=1) for e in h])
    run.conform(exe[("d_pool", "asan")], hs, "TrPoolMem", cfg="TraceMem.cfg", name="matrix-histories")
    leaks(run, exe, run.n(100, 800))
    return run.finish("TLC explores Memory exhaustively (owners of storage, operations that release, size, obtain and count a block, an allocation that may fail) and "
                      "prints the script of every transition; the scripts and random histories of matrices, arrays and vectors with the logging allocator run "
                      "with and without assertions and with failing allocations, and TLC compares the used memory and the reported sizes after every call; "
                      "histories of all matrix operations are checked likewise against MatrixStore, and the commands of the other checks run with the live heap "
                      "blocks counted and double releases detected (AddressSanitizer).",
                      ["an allocation fails by std::bad_alloc", "the capacity of a std::vector is the standard library's choice"], {"scripts_in_model": total})
