import itertools

HOW = ["vec", "get", "list", "const", "op"]
TYPES = [("i", "std"), ("d", "std"), ("u", "std"), ("f", "std"), ("b", "std"), ("cd", "std"), ("i", "log"), ("d", "log"), ("cd", "log")]


def prod(d):
    n = 1
    for v in d:
        n *= v
    return n


class Names:
    """The dimensions and sizes of the live arrays, to choose commands by; the specification decides."""

    def __init__(self, g):
        self.g, self.o = g, {}

    def apply(self, e):
        op, x = e["op"], e["x"]
        if op == "new":
            self.o[x] = [list(e["dims"]), prod(e["dims"])]
        elif op == "new0":
            self.o[x] = [[], 0]
        elif op in ("copy", "assign"):
            self.o[x] = list(self.o[e["y"]])
        elif op == "move":
            self.o[x] = self.o[e["y"]]
            self.o[e["y"]] = None
        elif op == "del":
            del self.o[x]
        elif op == "load":
            self.o[x] = [self.o[x][0], len(e["v"])]

    def look(self, only=None):
        r = []
        for x, o in sorted(self.o.items()):
            if o is None or (only and x not in only):
                continue
            d, n = o
            if d and prod(d) <= n and self.g.random() < 0.8:
                r.append({"x": x, "how": self.g.choice(HOW), "dims": d, "n": prod(d)})
            elif d and len(d) > 1 and n and self.g.randint(0, 1):
                r.append({"x": x, "how": self.g.choice(HOW), "dims": d, "n": min(n, prod(d))})
            else:
                r.append({"x": x, "how": "lin", "n": n})
        return r


def value(g, t):
    if t[0] == "c":
        m = g.choice([50, 10 ** 9])
        return [g.randint(-m, m), g.randint(-m, m)]
    if t in "id" and g.random() < 0.3:
        return g.randint(-10 ** 9, 10 ** 9)
    return g.randint(0, 100) if t == "u" else g.randint(-100, 100)


def dims(g, cap):
    while True:
        d = [g.choice([1, 2, 2, 3, 3, 4, 5, 7]) for _ in range(g.choice([1, 2, 3, 3, 3, 4, 4, 5, 6]))]
        if prod(d) <= cap:
            return d


def index(g, o):
    d, n = o
    if d and prod(d) <= n and g.random() < 0.85:
        if g.random() < 0.2:
            return [v - 1 for v in d]
        return [g.randrange(v) for v in d]
    return [g.randrange(n)]


def history(g, t, al, steps, cap):
    es, nm = [{"op": "begin", "t": t, "al": al}], Names(g)
    xs = ["a", "b", "c"][:g.choice([1, 2, 3])]
    for _ in range(steps):
        live = [x for x in xs if nm.o.get(x)]
        full = [x for x in live if nm.o[x][1]]
        dead = [x for x in xs if x not in nm.o]
        op = g.choice(["new", "set", "set", "set", "set", "get", "get", "copy", "assign", "load", "del", "move", "new0"])
        e = {"op": op}
        if op in ("new", "new0"):
            if not dead:
                continue
            e["x"] = g.choice(dead)
            if op == "new":
                e["dims"] = dims(g, cap)
        elif op in ("set", "get"):
            if not full:
                continue
            e["x"] = g.choice(full)
            e["i"] = index(g, nm.o[e["x"]])
            if op == "set":
                e["v"] = value(g, t)
                e["twice"] = g.randint(0, 1)
            else:
                e["how"] = g.choice(HOW)
        elif op in ("copy", "move"):
            if not dead or not live:
                continue
            e["x"], e["y"] = g.choice(dead), g.choice(live)
        elif op == "assign":
            if not live:
                continue
            e["x"], e["y"] = g.choice(sorted(nm.o)), g.choice(live)
        elif op == "del":
            if not nm.o or g.randint(0, 2):
                continue
            e["x"] = g.choice(sorted(nm.o))
        elif op == "load":
            if not live:
                continue
            e["x"] = g.choice(live)
            d = nm.o[e["x"]][0]
            n = prod(d) if d and g.random() < 0.7 else g.choice([1, 2, 5, 12, cap])
            e["v"] = [value(g, t) for _ in range(n)]
        nm.apply(e)
        e["look"] = nm.look()
        es.append(e)
    return es


def check(run):
    exe = run.build([("d_array", "asan")])[("d_array", "asan")]
    g = run.rng
    sc = []
    allp = run.model("MCArray", "MCArray_thorough.cfg" if run.thorough else "MCArray.cfg", emit=True)
    keep = run.n(5000, 100000)
    if len(allp) > keep:
        allp = g.sample(allp, keep)
    for k, path in enumerate(allp):
        t, al = TYPES[k % len(TYPES)]
        nm, es = Names(g), [{"op": "begin", "t": t, "al": al}]
        for e in path:
            e = dict(e)
            if t[0] == "c" and "v" in e:
                e["v"] = [[v, -v] for v in e["v"]] if isinstance(e["v"], list) else [e["v"], -e["v"]]
            nm.apply(e)
            e["look"] = nm.look() if e is not path[-1] else nm.look()
            es.append(e)
        sc.append(es)
    run.conform(exe, sc, "TrArray", name="model-scripts")
    hs = [history(g, *TYPES[k % len(TYPES)], g.choice([10, 30, 60]), g.choice([8, 24, 60])) for k in range(run.n(450, 6000))]
    # every cell of many shapes, written once in a random order
    shapes = [d for n in (1, 2, 3) for d in itertools.product((1, 2, 3, 4), repeat=n)] + [[2, 3, 1, 2], [1, 1, 1, 2, 3], [2, 2, 2, 2, 2], [3, 1, 2, 1, 2, 1], [1, 2, 1, 2, 1, 3], [64, 3, 2], [2, 3, 64], [5, 7, 11], [300], [2, 300], [300, 2], [257, 3, 1], [2, 2, 260], [1, 256, 2]]
    for k, d in enumerate(shapes):
        t, al = TYPES[k % len(TYPES)]
        d = list(d)
        es = [{"op": "begin", "t": t, "al": al}, {"op": "new", "x": "a", "dims": d, "look": []}]
        cells = list(itertools.product(*[range(v) for v in d]))
        g.shuffle(cells)
        for c in cells[:150]:
            es.append({"op": "set", "x": "a", "i": list(c), "v": value(g, t), "look": []})
        if len(cells) > 250:
            es += [{"op": "set", "x": "a", "i": [v - 1 for v in d], "v": value(g, t), "look": []}]
        for how in HOW:
            es.append({"op": "get", "x": "a", "i": list(cells[0]), "how": how, "look": [{"x": "a", "how": how, "dims": d, "n": prod(d)}]})
        hs.append(es)
    run.conform(exe, hs, "TrArray", name="random-histories")
    return run.finish("TLC explores all histories over two named arrays and shows that the block of cells, addressed by the mixed-radix position, implements a map from index tuples to values, "
                      "and that no operation changes an array it does not name; the scripts of its transitions and longer random histories (up to 6 dimensions) run on the library, and TLC "
                      "checks all cells of all live arrays after every operation, read through all access paths.",
                      ["cells that were never written are not compared; moved-from arrays are only assigned to or destroyed; element types are numbers"])
