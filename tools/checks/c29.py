"""Stream output."""
NUMS = ["i", "b", "u", "w", "d", "f", "c", "cf", "cb", "cu"]
PAIRS = ["(id)", "(si)", "(sc)", "(Vii)", "(sVd)", "((id)s)"]
TUPLES = ["", "i", "s", "id", "dsi", "wwww", "cis"]


def number(g, t, fine):
    if t == "s":
        return [g.choice([32, 40, 41, 44, 48, 65, 91, 93, 97, 9, 10, 8]) for _ in range(g.choice([0, 1, 2, 5, 12]))]
    if t in ("c", "cf"):
        return [number(g, "d", fine and t == "c"), number(g, "d", fine and t == "c")]
    if t in ("cb", "cu"):
        return [number(g, t[1], fine), number(g, t[1], fine)]
    if t == "b":
        return g.choice([0, 1, -1, 127, -128, 10, 48, 65, g.randint(-128, 127)])
    if t == "u":
        return g.choice([0, 1, 255, 128, 10, 48, 65, g.randint(0, 255)])
    if t == "i":
        return g.choice([0, 1, -1, 10, -10, 2147483647, -2147483647, g.randint(-10 ** 9, 10 ** 9), g.randint(-99, 99)])
    if t == "w":
        return g.choice([0, 1, 10, 100, 2147483647, g.randint(0, 2 ** 31 - 1)])
    if fine and t == "d":
        return g.choice([0, 1, -1, 16, g.randint(-10 ** 6, 10 ** 6), g.randint(-10 ** 9, 10 ** 9)])
    return g.choice([0, 1, -1, 16, 15, 160, -160, g.randint(-1599, 1599), 16 * g.randint(-99999, 99999)])


def num(g, t, fine):
    return {"k": "num", "t": t, "x": number(g, t, fine)}


def vec(g, t, fine):
    return {"k": "vec", "t": t, "x": [number(g, t, fine) for _ in range(g.choice([0, 1, 2, 3, 9]))]}


def value(g, fine):
    k = g.randrange(5)
    if k < 2:
        t = g.choice(NUMS)
        r, c = g.choice([(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (0, 0), (1, 2), (2, 1), (5, 6)])
        return {"k": "mat", "t": t, "r": r, "c": c, "log": g.randint(0, 1), "x": [number(g, t, fine) for _ in range(r * c)]}
    if k == 2:
        return vec(g, g.choice(["i", "w", "d", "f", "s", "c"]), fine)
    if k == 3:
        p = g.choice(PAIRS)
        if p == "(Vii)":
            return {"k": "pair", "a": vec(g, "i", fine), "b": num(g, "i", fine)}
        if p == "(sVd)":
            return {"k": "pair", "a": num(g, "s", fine), "b": vec(g, "d", fine)}
        if p == "((id)s)":
            return {"k": "pair", "a": {"k": "pair", "a": num(g, "i", fine), "b": num(g, "d", fine)}, "b": num(g, "s", fine)}
        return {"k": "pair", "a": num(g, p[1], fine), "b": num(g, p[2], fine)}
    return {"k": "tup", "x": [num(g, t, fine) for t in g.choice(TUPLES)]}


def check(run):
    g = run.rng
    exe = run.build([("d_print", "asan")])[("d_print", "asan")]
    ps = run.model("MCPrint", "MCPrint.cfg", emit=True)
    total = len(ps)
    g.shuffle(ps)
    ss = []
    for k in range(0, len(ps), 4):
        ss.append([{"op": "begin"}] + [{"op": "show", "prec": 0, "v": p["v"]} for p in ps[k:k + 4]])
    run.conform(exe, ss, "TrPrint", name="model-values")
    ss = []
    for k in range(run.n(800, 12000)):
        fine = g.randint(0, 1)
        ss.append([{"op": "begin"}] + [{"op": "show", "prec": 14 if fine else 0, "v": value(g, fine)} for _ in range(g.choice([1, 2, 5]))])
    for r, c in ((1, 300), (300, 1), (3, 257), (257, 3), (1, 5000), (5000, 1)):
        for t in ("i", "u", "cb"):
            ss.append([{"op": "begin"}, {"op": "show", "prec": 0, "v": {"k": "mat", "t": t, "r": r, "c": c, "log": 0, "x": [number(g, t, 0) for _ in range(r * c)]}}])
    ss.append([{"op": "begin"}, {"op": "show", "prec": 0, "v": {"k": "vec", "t": "i", "x": [number(g, "i", 0) for _ in range(700)]}}])
    run.conform(exe, ss, "TrPrint", name="random-values")
    return run.finish("TLC prints all small matrices, vectors, pairs and tuples by the specification and shows that the texts of matrices read back (with the specification of the parser) as "
                      "the same matrices and that different values of one kind have different texts; these values and random ones of all element types, one after the other to the same "
                      "stream, run on the library and TLC compares the complete text of the stream.",
                      ["real numbers are multiples of 1/16 that the precision of the stream can represent", "character elements are printed by matrices, which show them as numbers; in standard vectors they are characters and not covered"],
                      {"values_in_model": total})
