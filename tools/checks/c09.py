from genpool import *
from checks.c01 import TYPES


def edge_val(g, t, s):
    """Operands at the limits of the types that still have a defined result."""
    if t == "b":
        return g.choice([-128, 127, -127, 1, -1, 0, 100, -100])
    if t == "u":
        return g.choice([0, 1, 255, 128, 200])
    return None


def arith_session(g, t, al, s, op, r, c, via, alias):
    h = Shapes(g, t, s, 4, 5)
    h.begin(al)
    big = t in ("i", "d") and op in ("add", "sub", "adds", "subs", "sadd", "ssub", "pluseq", "minuseq") and g.random() < 0.4

    def val():
        if big:
            return g.choice([g.randint(-949999999, 949999999), g.randint(2 ** 24, 2 ** 25), 16777217]) if s == 1 else g.randint(-2 ** 20, 2 ** 20) * 2
        e = edge_val(g, t, s)
        if e is not None and g.random() < 0.5:
            return e
        v = rnd_val(g, t, 1)
        if s == 1:
            return v
        # even multiples keep products exact at the scale
        f = lambda: g.randint(-60, 60) * 2
        return [f(), f()] if t[0] == "c" else f()

    # factors and dividends whose results have more digits than float holds
    fine = t in ("i", "d", "cd") and g.random() < 0.4
    if fine and op in ("mul", "muls", "smul"):
        lim = 30000 if t[0] != "c" else 20000
        lim = lim if s == 1 else 700 * s
        one = lambda: g.randint(-lim // s, lim // s) * s if s > 1 else g.randint(-lim, lim)
        val = lambda: [one(), one()] if t[0] == "c" else one()
    elif fine and t in "id" and op in ("div", "divs"):
        # even multiples of a quarter: halves of them are exact
        val = lambda: g.randint(-10 ** 9, 10 ** 9) if t == "i" else g.randint(-2 ** 26, 2 ** 26) * 2
    else:
        fine = False

    def mat():
        return {"r": r, "c": c, "d": [val() for _ in range(r * c)]}

    div_ints = op in ("div", "divs") and t in ("i", "b", "u")
    h.emit("load", x=0, mm=mat())
    if op in ("div",):
        h.emit("load", x=1, mm={"r": r, "c": c, "d": [h.divisor() for _ in range(r * c)]})
    else:
        h.emit("load", x=1, mm=mat())
    v = h.divisor() if op == "divs" else val()
    kw = {}
    if op in ("add", "sub", "mul", "div"):
        kw = {"x": g.choice([2, 0, 1]), "y": 0, "z": 1}
        if alias and op != "div":
            kw["z"] = 0
    elif op in ("pluseq", "minuseq"):
        kw = {"x": 0, "y": 0 if alias else 1}
        if alias and big and t == "i":
            kw["y"] = 1
    else:
        kw = {"x": g.choice([2, 0]), "y": 0, "v": v}
    h.emit(op, **kw)
    # the result takes part in a second operation
    if not big and t not in ("d", "f", "cd", "cf") or s == 1 and op not in ("div", "divs"):
        if not big and not fine:
            h.emit(g.choice(["adds", "subs", "sadd", "ssub"]), x=3, y=kw["x"], v=rnd_val(g, t, s))
    return h.cmds


def check(run):
    b = run.build([("d_pool", "asan"), ("d_conv", "asan")])
    g = run.rng
    run.model("MCArith", "MCArith.cfg")
    sess = []
    ops = sorted(ARITH)
    for k in range(run.n(4500, 60000)):
        t, al = TYPES[k % len(TYPES)]
        op = ops[(k // len(TYPES)) % len(ops)]
        s = 1 if t in ("i", "b", "u") else g.choice([1, 4]) if op not in ("div", "divs") else 4
        shape = g.choice([(1, 1), (1, g.randint(2, 6)), (g.randint(2, 6), 1), (g.randint(2, 4), g.randint(2, 4)), (2, 3)])
        if k % 97 == 0:
            shape = (g.randint(10, 30), g.randint(10, 30))
        sess.append(arith_session(g, t, al, s, op, shape[0], shape[1], 0, g.random() < 0.15))
    run.conform(b[("d_pool", "asan")], sess, "TrPool", name="arithmetic")
    run.conform(b[("d_pool", "asan")], large(g, ARITH, TYPES, 2, full=run.thorough), "TrPool", name="large")
    cv = []
    reals, cxs = ["d", "f", "i", "b", "u"], ["cd", "cf", "ci", "cb", "cu"]
    for k in range(run.n(2500, 20000)):
        grp = reals if k % 2 else cxs
        t, t2 = grp[(k // 2) % 5], grp[(k // 10) % 5]
        s = 4 if t[-1] in "df" else 1
        lo, hi = -500, 500
        if t2[-1] == "b" and t[-1] in "df":
            lo, hi = -127, 127
        if t2[-1] == "u" and t[-1] in "df":
            lo, hi = 0, 255
        if t[-1] == "b":
            lo, hi = -128, 127
        if t[-1] == "u":
            lo, hi = 0, 255
        if t[-1] == "i" and t2[-1] in "di" and g.random() < 0.3:
            lo, hi = -2 ** 30, 2 ** 30
        if t[-1] == "d" and t2[-1] in "id" and g.random() < 0.3:
            lo, hi = -2 ** 27, 2 ** 27
        f = lambda: g.randint(lo * s, hi * s)
        r, c = g.choice([(1, 1), (1, 4), (5, 1), (2, 3), (3, 3), (4, 2)])
        if k % 100 == 0:
            r, c = g.choice(WIDE)
        d = [[f(), f()] if t[0] == "c" else f() for _ in range(r * c)]
        cv.append({"op": "conv", "t": t, "t2": t2, "s": s, "al": "log" if k % 7 == 0 else "std", "mm": {"r": r, "c": c, "d": d}})
    run.conform(b[("d_conv", "asan")], cv, "TrConv", name="conversions")
    return run.finish("TLC checks the algebra of the elementwise operations on all pairs of small matrices, and decides every recorded operation of "
                      "the real matrices: value of every element in the element type (8-bit wrap-around, truncating integer division, exact dyadic "
                      "reals and complex numbers) and the unchanged contents of every other live matrix; conversions between all element types.",
                      ["real operands are dyadic, so that the exact result is representable and must be met exactly"])
