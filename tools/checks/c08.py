from genpool import *
from checks.c05 import Names, dims, value
from checks.c05 import TYPES as ATYPES, HOW

TYPES = [("i", "std"), ("d", "std"), ("u", "std"), ("cd", "std"), ("i", "log"), ("f", "std")]
HUGE = [2000000000, 1999999999, 1999999998]
OFF = ("get", "get2", "at", "at2", "mat", "mat2", "set", "set2", "addto", "setrow", "setcol", "swaprows", "swapcols",
       "rowvec", "colvec", "row", "col", "left", "right", "mid", "shrink")


def typed(cmds, k, g):
    """A script of the model for one element type."""
    t, al = TYPES[k % len(TYPES)]
    if cmds[-1]["op"] == "hermitian":
        t, al = "cd", "std"
    if cmds[-1]["op"] in ("div", "divs"):
        t = g.choice("iu")
    out = [{"op": "begin", "t": t, "al": al}]
    for e in cmds:
        e = dict(e)
        if t[0] == "c":
            if "v" in e:
                e["v"] = [e["v"], -e["v"]]
            if "mm" in e:
                e["mm"] = dict(e["mm"], d=[[v, 1 - v] for v in e["mm"]["d"]])
        e["via"] = g.randint(0, 7)
        out.append(e)
    return out


def probe(g, s, off):
    """A call on or around the border of its precondition; the specification decides which side."""
    live = s.live()
    if not live:
        return None
    x = g.choice(live)
    r, c, u = s.m[x]
    full = [k for k in live if s.m[k][0] > 0 and not s.m[k][2]]

    def near(n):
        return g.choice([max(n - 1, 0), n, n, n + 1, n + g.randint(1, 9), g.randint(0, n + 1), g.choice(HUGE)])
    fresh = s.slots
    ops = list(OFF) if off else list(OFF) + ["newrc", "newrcv", "resize", "eye", "reshape", "transpose", "fliplr", "flipud", "add", "sub", "mul", "matmul", "kron", "pluseq", "minuseq", "adds"]
    op = g.choice(ops)
    e = {"op": op}
    if op in ("get", "at", "mat"):
        e.update(y=x, p=[near(r * c)])
    elif op in ("get2", "at2", "mat2"):
        e.update(y=x, p=[near(r), near(c)])
    elif op in ("set", "addto"):
        if op == "addto" and u:
            return None
        e.update(x=x, p=[near(r * c)], v=s.val())
    elif op == "set2":
        e.update(x=x, p=[near(r), near(c)], v=s.val())
    elif op in ("setrow", "setcol"):
        y = g.choice(live)
        n = s.m[y][0] * s.m[y][1]
        if n > (c if op == "setrow" else r) or y == x:
            return None
        e.update(x=x, y=y, p=[near(r if op == "setrow" else c)])
    elif op in ("swaprows", "swapcols"):
        n = r if op == "swaprows" else c
        e.update(x=x, p=[near(n), near(n)])
    elif op in ("rowvec", "colvec"):
        if r == 0:
            return None
        e.update(y=x, p=[near(r if op == "rowvec" else c)])
    elif op in ("row", "col"):
        e.update(x=fresh, y=x, p=[near(r if op == "row" else c)])
    elif op in ("left", "right"):
        e.update(x=fresh, y=x, p=[max(1, near(r if c == 1 and r > 1 else c))])
    elif op == "mid":
        n = r if c == 1 and r > 1 else c
        b, d = near(n), near(n)
        if b == d:
            return None
        e.update(x=fresh, y=x, p=[b, d])
    elif op == "shrink":
        e.update(x=fresh, y=x, p=[near(r), near(c)])
    elif op in ("newrc", "newrcv"):
        e.update(x=fresh, p=[g.randint(0, 3), g.randint(0, 3)], v=s.val())
    elif op == "resize":
        e.update(x=x, p=[g.randint(0, 3), g.randint(0, 3)])
    elif op == "eye":
        e.update(x=fresh, p=[g.randint(0, 3)])
    elif op == "reshape":
        e.update(x=fresh, y=x, p=[g.choice([r, c, r * c, r + 1, 1, 2]) or 1, g.choice([c, r, r * c, 1, c + 1, 3]) or 1])
    elif op in ("transpose", "fliplr", "flipud"):
        e.update(x=fresh, y=x)
    elif op == "adds":
        if u:
            return None
        e.update(x=fresh, y=x, v=s.val())
    else:
        empty = [k for k in live if s.m[k][0] == 0]
        cand = full + empty
        if not cand:
            return None
        y, z = g.choice(cand), g.choice(cand)
        if op in ("mul", "matmul", "kron") and s.ty not in ("b", "u"):
            n = 0
            for q in {y, z}:
                if s.m[q][0]:
                    s.emit("load", x=q, mm=rnd_mat(g, s.ty, s.m[q][0], s.m[q][1], s.s))
        if op in ("pluseq", "minuseq"):
            e.update(x=y, y=z)
        else:
            e.update(x=fresh, y=y, z=z)
    e["via"] = g.randint(0, 7)
    return e


def store(g, k, steps, off):
    t, al = TYPES[k % len(TYPES)]
    s = Shapes(g, t, slots=g.choice([2, 3, 4]), maxdim=g.choice([2, 4, 6]))
    s.begin(al)
    w = mix(LIFE, SLICE)
    for n in range(steps):
        if off and n > 2 and g.random() < 0.6:
            e = probe(g, s, True)
            if e:
                s.cmds.append(e)
                if e.get("x") == s.slots:
                    s.emit("del", x=s.slots)
                if e["op"] in ("setrow", "setcol"):
                    s.m[e["x"]] = s.m[e["x"]][:2] + (True,)
            continue
        s.step(w)
    if not off:
        for _ in range(20):
            e = probe(g, s, False)
            if e:
                s.cmds.append(e)
                break
    return s.cmds


def arrays(g, k, steps, off):
    t, al = ATYPES[k % len(ATYPES)]
    if t[0] == "c":
        t = "i"
    nm, es = Names(g), [{"op": "begin", "t": t, "al": al}]

    def do(e, look=True):
        nm.apply(e)
        e["look"] = [{"x": x, "how": "lin", "n": o[1]} for x, o in sorted(nm.o.items()) if o] if look else []
        es.append(e)
    for x in ("a", "b"):
        if g.random() < 0.12:
            do({"op": "new0", "x": x})
        else:
            do({"op": "new", "x": x, "dims": dims(g, 40)})
            do({"op": "load", "x": x, "v": [value(g, t) for _ in range(nm.o[x][1])]})
    for n in range(steps):
        x = g.choice("ab")
        d, size = nm.o[x]
        kind = g.randint(0, 3)
        if kind == 0 or not d:
            i = [g.choice([size, size + 1, max(size - 1, 0), size + g.randint(0, 99)])]
        elif kind == 1:
            i = [v - 1 for v in d]
            q = g.randrange(len(d))
            i[q] += g.randint(0, 2)
        elif kind == 2:
            i = [v - 1 for v in d][:6] + [0] * g.randint(0, 2)
            i = i[:6]
        else:
            i = [g.randint(0, 3) for _ in range(g.randint(1, min(6, len(d) + 1)))]
        if g.random() < 0.5:
            do({"op": "set", "x": x, "i": i, "v": value(g, t), "twice": g.randint(0, 1)}, off)
        else:
            do({"op": "get", "x": x, "i": i, "how": g.choice(HOW)}, off)
    return es


def pick(g, q, keep):
    return g.sample(q, keep) if len(q) > keep else q


def check(run):
    exes = run.build([("d_pool", "asan"), ("d_pool", "nassert"), ("d_array", "asan"), ("d_array", "nassert"), ("d_guard", "asan")])
    g = run.rng
    sc = run.model("MCGuard", "MCGuard_thorough.cfg" if run.thorough else "MCGuard.cfg", emit=True)
    mats = [s for s in sc if s["part"] in ("one", "two")]
    arrs = [s for s in sc if s["part"] == "arr"]
    calls = [s["cmds"][0] for s in sc if s["part"] == "call"]
    keep = run.n(5000, 60000)
    # every operation of the model on both sides of its border
    by = {}
    for s in mats:
        by.setdefault((s["cmds"][-1]["op"], s["kind"]), []).append(s)
    few, rest = [], []
    for k in sorted(by):
        q = by[k]
        g.shuffle(q)
        few += q[:run.n(60, 1500)]
        rest += q[run.n(60, 1500):]
    few += pick(g, rest, max(0, keep - len(few)))
    # ---- with the assertions
    run.conform(exes[("d_pool", "asan")], [typed(s["cmds"], k, g) for k, s in enumerate(few)], "TrPool", name="matrix-borders")
    run.conform(exes[("d_pool", "asan")], [store(g, k, g.choice([3, 8, 20]), False) for k in range(run.n(500, 8000))], "TrPool", name="histories-to-a-border")
    ar = []
    for k, s in enumerate(pick(g, arrs, run.n(1500, 20000))):
        t, al = ATYPES[k % len(ATYPES)]
        if t[0] == "c":
            t = "i"
        e = [dict(c, look=[]) for c in s["cmds"]]
        e[-1]["v"] = 7
        e[-1]["how"] = HOW[k % len(HOW)]
        ar.append([{"op": "begin", "t": t, "al": al}] + e)
    ar += [arrays(g, k, 1, False) for k in range(run.n(500, 6000))]
    run.conform(exes[("d_array", "asan")], ar, "TrArray", name="array-borders")
    cs = [[dict(c, t=t)] for c in calls for t in (["d"] if c["op"] in ("ccode", "setgen", "rrc") else ["d", "f"] if c["op"] in ("radix2", "lu", "lup") else ["i", "d", "f"])]
    run.conform(exes[("d_guard", "asan")], pick(g, cs, run.n(3500, 40000)), "TrGuard", name="function-borders")
    # ---- without
    off = [s for s in mats if s["cmds"][-1]["op"] in OFF and s["kind"] != "open"]
    few = pick(g, [s for s in off if s["kind"] == "out"], run.n(3000, 30000)) + pick(g, [s for s in off if s["kind"] == "in"], run.n(400, 4000))
    run.conform(exes[("d_pool", "nassert")], [typed(s["cmds"], k, g) for k, s in enumerate(few)], "TrPoolOff", name="unasserted-matrices")
    run.conform(exes[("d_pool", "nassert")], [store(g, k, g.choice([20, 50]), True) for k in range(run.n(250, 4000))], "TrPoolOff", name="unasserted-histories")
    run.conform(exes[("d_array", "nassert")], [arrays(g, k, g.choice([5, 20]), True) for k in range(run.n(400, 5000))], "TrArrayOff", name="unasserted-arrays")
    return run.finish("TLC enumerates every operation with every argument on and around the border of its precondition (all shapes up to 3x3, thorough: 5x5, indices beyond the range and near the "
                      "largest integers, all pairs of a set of shapes, arrays up to 3 dimensions) and shows that the result is defined exactly where the precondition holds; samples that cover "
                      "every operation on both sides run on the library with and without the assertions under AddressSanitizer, and TLC decides which outcome each call may have and, without the "
                      "assertions, that reads give zeros and nothing changes.",
                      ["calls that state no precondition, or whose outcome the documentation leaves open, may do either"], {"border_calls_in_model": len(sc)})
