"""Random histories for the matrix store.  Only shapes are tracked here, to keep
the calls inside their preconditions; values are decided by the specification."""


def rnd_val(rng, ty, s=1, big=False):
    def one():
        if ty in ("b", "cb"):
            return rng.choice([rng.randint(-9, 9), rng.randint(-128, 127)])
        if ty == "u":
            return rng.choice([rng.randint(0, 9), rng.randint(0, 255)])
        k = rng.random()
        if k < 0.6:
            return rng.randint(-9, 9) * s
        if k < 0.8 and s > 1:
            return rng.randint(-40, 40) * (s // 2)
        if big and k > 0.7 and ty not in ("f", "cf"):
            return rng.randint(0 if ty == "n" else -40000000, 40000000)   # more digits than float holds
        return rng.randint(-99, 99) * s
    if ty[0] == "c":
        return [one(), one()]
    return one()


def rnd_mat(rng, ty, r, c, s=1, big=False):
    return {"r": r, "c": c, "d": [rnd_val(rng, ty, s, big) for _ in range(r * c)]}


class Shapes:
    """names -> (rows, cols, has uninitialised elements)"""

    def __init__(self, rng, ty, s=1, slots=5, maxdim=6):
        self.rng, self.ty, self.s, self.slots, self.maxdim = rng, ty, s, slots, maxdim
        self.m = {}
        self.cmds = []
        self.shapes = None
        self.big = False

    def begin(self, al="std"):
        self.cmds.append({"op": "begin", "t": self.ty, "al": al, "s": self.s})

    def emit(self, op, **kw):
        d = {"op": op}
        d.update(kw)
        d["via"] = self.rng.randint(0, 7)
        self.cmds.append(d)

    def live(self):
        return sorted(self.m)

    def dead(self):
        return [k for k in range(self.slots) if k not in self.m]

    def shape(self):
        if self.shapes:
            return self.rng.choice(self.shapes)
        k = self.rng.random()
        if k < 0.2:
            return (1, self.rng.randint(1, self.maxdim))
        if k < 0.4:
            return (self.rng.randint(1, self.maxdim), 1)
        return (self.rng.randint(1, self.maxdim), self.rng.randint(1, self.maxdim))

    def val(self):
        return rnd_val(self.rng, self.ty, self.s, self.big)

    def dest(self):
        return self.rng.randint(0, self.slots - 1)

    def step(self, weights):
        ops, w = zip(*weights.items())
        for _ in range(50):
            if self.try_op(self.rng.choices(ops, w)[0]):
                return
        self.try_op("load")

    def try_op(self, op):
        g = self.rng
        live, dead = self.live(), self.dead()
        ne = [k for k in live if self.m[k][0] > 0]
        full = [k for k in ne if not self.m[k][2]]
        if op == "new0":
            if not dead:
                return False
            x = g.choice(dead)
            self.emit(op, x=x)
            self.m[x] = (0, 0, False)
        elif op in ("newrc", "newrcv"):
            if not dead:
                return False
            x = g.choice(dead)
            r, c = self.shape()
            kw = {"x": x, "p": [r, c], "tup": g.randint(0, 1)}
            if op == "newrcv":
                kw["v"] = self.val()
            self.emit(op, **kw)
            self.m[x] = (r, c, op == "newrc")
        elif op == "load":
            x = self.dest()
            r, c = self.shape()
            self.emit(op, x=x, mm=rnd_mat(g, self.ty, r, c, self.s, self.big))
            self.m[x] = (r, c, False)
        elif op in ("copy", "move"):
            if not dead or not live:
                return False
            x, y = g.choice(dead), g.choice(live)
            self.emit(op, x=x, y=y)
            self.m[x] = self.m[y]
            if op == "move":
                self.m[y] = (0, 0, False)
        elif op in ("assign", "assignval"):
            if not live:
                return False
            x, y = g.choice(live), g.choice(live)
            if g.random() < 0.15:
                y = x
            self.emit(op, x=x, y=y)
            self.m[x] = self.m[y]
        elif op == "massign":
            # the source may end up empty, so it is destroyed straight away
            if len(live) < 2:
                return False
            x, y = g.sample(live, 2)
            self.emit(op, x=x, y=y)
            self.m[x] = self.m[y]
            self.emit("del", x=y)
            del self.m[y]
        elif op == "assigntmp":
            if not live:
                return False
            x = g.choice(live)
            r, c = self.shape()
            self.emit(op, x=x, p=[r, c], v=self.val())
            self.m[x] = (r, c, False)
        elif op == "swap":
            if len(live) < 2:
                return False
            x, y = g.sample(live, 2)
            self.emit(op, x=x, y=y)
            self.m[x], self.m[y] = self.m[y], self.m[x]
        elif op == "viavec":
            if not live:
                return False
            x, y, z = g.choice(live), g.choice(live), g.choice(live)
            self.emit(op, x=x, y=y, z=z)
            self.m[x] = self.m[y]
        elif op == "del":
            if not live:
                return False
            x = g.choice(live)
            self.emit(op, x=x)
            del self.m[x]
        elif op == "resize":
            if not live:
                return False
            x = g.choice(live)
            r, c = self.shape()
            self.emit(op, x=x, p=[r, c])
            self.m[x] = (r, c, True)
            if g.random() < 0.6:
                self.emit("setall", x=x, v=self.val())
                self.m[x] = (r, c, False)
        elif op == "setall":
            if not ne:
                return False
            x = g.choice(ne)
            self.emit(op, x=x, v=self.val())
            self.m[x] = self.m[x][:2] + (False,)
        elif op in ("set", "set2", "get", "get2", "at", "at2", "mat", "mat2", "addto"):
            pool = full if op == "addto" else ne
            if not pool:
                return False
            x = g.choice(pool)
            r, c, _ = self.m[x]
            i, j = g.randrange(r), g.randrange(c)
            kw = {"p": [i, j] if op.endswith("2") else [i + j * r]}
            if op in ("set", "set2", "addto"):
                kw["v"] = self.val()
                if op == "addto" and self.ty in ("b", "u"):
                    kw["v"] = g.randint(0, 255) if self.ty == "u" else g.randint(-128, 127)
                kw["x"] = x
            else:
                kw["y"] = x
            self.emit(op, **kw)
        elif op in ("rowvec", "colvec", "row", "col"):
            if not ne:
                return False
            y = g.choice(ne)
            r, c, u = self.m[y]
            lim = r if op.startswith("row") else c
            kw = {"y": y, "p": [g.choice([0, lim - 1, g.randrange(lim)])]}
            if op in ("row", "col"):
                kw["x"] = self.dest()
                self.m[kw["x"]] = (1, c, u) if op == "row" else (r, 1, u)
            self.emit(op, **kw)
        elif op == "eq":
            if not live:
                return False
            x, y = g.choice(live), g.choice(live)
            self.emit(op, x=x, y=y)
        elif op in ("left", "right"):
            if not ne:
                return False
            y, x = g.choice(ne), self.dest()
            r, c, u = self.m[y]
            n = r if (c == 1 and r > 1) else c
            w = g.choice([1, n, g.randint(1, n)])
            self.emit(op, x=x, y=y, p=[w])
            self.m[x] = (w, 1, u) if (c == 1 and r > 1) else (r, w, u)
        elif op == "mid":
            if not ne:
                return False
            y, x = g.choice(ne), self.dest()
            r, c, u = self.m[y]
            n = r if (c == 1 and r > 1) else c
            if n < 2:
                return False
            b = g.randint(0, n - 2)
            e = g.choice([n - 1, g.randint(b + 1, n - 1)])
            self.emit(op, x=x, y=y, p=[b, e])
            w = e - b + 1
            self.m[x] = (w, 1, u) if (c == 1 and r > 1) else (r, w, u)
        elif op == "shrink":
            cand = [k for k in ne if self.m[k][0] > 1 and self.m[k][1] > 1]
            if not cand:
                return False
            y, x = g.choice(cand), self.dest()
            r, c, u = self.m[y]
            self.emit(op, x=x, y=y, p=[g.choice([0, r - 1, g.randrange(r)]), g.choice([0, c - 1, g.randrange(c)])])
            self.m[x] = (r - 1, c - 1, u)
        elif op == "reshape":
            if not ne:
                return False
            y, x = g.choice(ne), self.dest()
            r, c, u = self.m[y]
            d = g.choice([k for k in range(1, r * c + 1) if (r * c) % k == 0])
            self.emit(op, x=x, y=y, p=[d, r * c // d])
            self.m[x] = (d, r * c // d, u)
        elif op in ("setrow", "setcol"):
            if not ne:
                return False
            x = g.choice(ne)
            r, c, u = self.m[x]
            n = c if op == "setrow" else r
            cand = [k for k in ne if self.m[k][0] * self.m[k][1] == n and k != x]
            if not cand:
                others = [k for k in range(self.slots) if k != x]
                y = g.choice(others)
                sh = g.choice([(1, n), (n, 1)])
                self.emit("load", x=y, mm=rnd_mat(g, self.ty, sh[0], sh[1], self.s))
                self.m[y] = sh + (False,)
            else:
                y = g.choice(cand)
            lim = r if op == "setrow" else c
            self.emit(op, x=x, y=y, p=[g.choice([0, lim - 1, g.randrange(lim)])])
            self.m[x] = (r, c, u or self.m[y][2])
        elif op in ("swaprows", "swapcols"):
            if not ne:
                return False
            x = g.choice(ne)
            lim = self.m[x][0 if op == "swaprows" else 1]
            self.emit(op, x=x, p=[g.randrange(lim), g.randrange(lim)])
        elif op in ("transpose", "fliplr", "flipud", "hermitian"):
            if not ne or (op == "hermitian" and self.ty[0] != "c"):
                return False
            y, x = g.choice(full or ne), self.dest()
            r, c, u = self.m[y]
            if op == "hermitian" and u:
                return False
            self.emit(op, x=x, y=y)
            self.m[x] = (c, r, u) if op in ("transpose", "hermitian") else (r, c, u)
        elif op in ("add", "sub", "mul", "div", "pluseq", "minuseq", "concat", "matmul", "kron"):
            if not full:
                return False
            y = g.choice(full)
            r, c, _ = self.m[y]
            others = [k for k in range(self.slots) if k != y] or [y]
            z = g.choice(others)
            if op in ("add", "sub", "mul", "div", "pluseq", "minuseq"):
                sh = (r, c)
            elif op == "concat":
                n = g.randint(1, 4)
                sh = g.choice([(r, c), (n, c), (r, n)])
            elif op == "kron":
                sh = g.choice([(1, 2), (2, 1), (2, 2), (1, 1), (3, 2)])
            else:
                sh = (c, g.randint(1, 5))
            if g.random() < 0.15 and op not in ("matmul", "kron", "div"):
                z, sh = y, (r, c)
            elif z == y or op in ("div", "mul", "matmul", "kron") or self.m.get(z) != sh + (False,):
                if z == y:
                    return False
                self.emit("load", x=z, mm=self.operand(op, *sh))
                self.m[z] = sh + (False,)
            # products of unbounded histories grow, so the left operand is renewed
            if op in ("mul", "matmul", "kron", "div") and self.ty not in ("b", "u"):
                self.emit("load", x=y, mm=rnd_mat(g, self.ty, r, c, self.s))
                if z == y:
                    self.m[y] = (r, c, False)
            if op in ("pluseq", "minuseq"):
                self.emit(op, x=y, y=z)
                return True
            x = self.dest()
            self.emit(op, x=x, y=y, z=z)
            if op in ("add", "sub", "mul", "div"):
                self.m[x] = (r, c, False)
            elif op == "concat":
                self.m[x] = (r + sh[0], c, False) if c == sh[1] else (r, c + sh[1], False)
            elif op == "kron":
                self.m[x] = (r * sh[0], c * sh[1], False)
            else:
                self.m[x] = (r, sh[1], False)
        elif op in ("adds", "subs", "muls", "divs", "sadd", "ssub", "smul"):
            if not full:
                return False
            y, x = g.choice(full), self.dest()
            r, c, _ = self.m[y]
            if op in ("muls", "smul", "divs") and self.ty not in ("b", "u"):
                self.emit("load", x=y, mm=rnd_mat(g, self.ty, r, c, self.s))
            v = self.divisor() if op == "divs" else self.val()
            self.emit(op, x=x, y=y, v=v)
            self.m[x] = (r, c, False)
        elif op == "eye":
            x = self.dest()
            n = g.randint(1, self.maxdim)
            self.emit(op, x=x, p=[n])
            self.m[x] = (n, n, False)
        elif op in ("newtext", "assigntext"):
            if self.ty[0] == "c" or self.s not in (1, 1000):
                return False
            if op == "newtext":
                if not dead:
                    return False
                x = g.choice(dead)
            else:
                if not live:
                    return False
                x = g.choice(live)
            r, c = self.shape()
            self.emit(op, x=x, txt=text_of(g, self.ty, r, c), cstr=g.randint(0, 1))
            self.m[x] = (r, c, False)
        else:
            raise ValueError(op)
        return True

    def divisor(self):
        g = self.rng
        if self.ty in ("b", "u", "i"):
            v = 0
            while v == 0:
                v = rnd_val(g, self.ty, 1)
            return v
        # divisions whose result is exact at this scale
        k = g.choice([1, 2, -1, -2]) * self.s
        if self.ty[0] == "c":
            return g.choice([[k, 0], [0, k], [self.s, self.s], [self.s, -self.s], [-self.s, self.s]])
        return k

    def operand(self, op, r, c):
        if op == "div":
            return {"r": r, "c": c, "d": [self.divisor() for _ in range(r * c)]}
        return rnd_mat(self.rng, self.ty, r, c, self.s)


def text_of(rng, ty, r, c, wild=True, lo=-99, hi=99, dec=0):
    """A well-formed text of r rows and c columns as character codes."""
    if ty == "u":
        lo, hi = 0, 255
    if ty == "b":
        lo, hi = -128, 127
    def num():
        if dec and rng.random() < 0.6:
            k = rng.randint(1, dec)
            t = "%d.%0*d" % (rng.randint(0, hi), k, rng.randint(0, 10 ** k - 1))
            if rng.random() < 0.15 and t.startswith("0."):
                t = t[1:]
            sgn = rng.choice(["", "", "-", "+"]) if lo < 0 else ""
            return sgn + t
        v = rng.randint(lo, hi)
        t = str(v)
        if v >= 0 and rng.random() < 0.1:
            t = "+" + t
        return t
    def sep():
        if not wild or rng.random() < 0.5:
            return " "
        return "".join(rng.choice(" \t,\r") for _ in range(rng.randint(1, 3)))
    def pad():
        return "" if not wild or rng.random() < 0.6 else "".join(rng.choice(" \t\r") for _ in range(rng.randint(1, 2)))
    rows = []
    for _ in range(r):
        t = pad()
        for k in range(c):
            t += num() + (sep() if k < c - 1 else "")
        rows.append(t + pad())
    rs = rng.choice([";", "\n", "mix"])
    t = rows[0]
    for q in rows[1:]:
        t += (rng.choice(";\n") if rs == "mix" else rs) + q
    if rng.random() < 0.4:
        t = "[" + t + "]"
    return [ord(ch) for ch in t]


LIFE = {"new0": 3, "newrc": 2, "newrcv": 3, "load": 4, "copy": 6, "move": 5, "assign": 8, "assignval": 2, "massign": 2, "assigntmp": 2,
        "swap": 3, "viavec": 2, "del": 4, "resize": 4, "setall": 2, "set": 4, "set2": 4, "addto": 1, "get": 1, "get2": 1, "at2": 1, "mat": 1,
        "eq": 5, "newtext": 1, "assigntext": 2}
SLICE = {"row": 4, "col": 4, "left": 4, "right": 4, "mid": 4, "shrink": 4, "reshape": 4, "setrow": 4, "setcol": 4, "swaprows": 3, "swapcols": 3,
         "rowvec": 2, "colvec": 2, "get": 1, "get2": 2, "at": 1, "at2": 2, "mat": 1, "mat2": 2, "set": 2, "set2": 2}
ARITH = {"add": 3, "sub": 3, "mul": 3, "div": 3, "adds": 2, "subs": 2, "muls": 2, "divs": 2, "sadd": 2, "ssub": 2, "smul": 2, "pluseq": 3, "minuseq": 3}
ALG = {"transpose": 3, "matmul": 4, "concat": 4, "fliplr": 3, "flipud": 3, "eye": 2, "hermitian": 3, "kron": 1}


def mix(*ws):
    r = {}
    for w in ws:
        for k, v in w.items():
            r[k] = r.get(k, 0) + v
    return r


def history(rng, ty, weights, steps, al="std", s=1, slots=5, maxdim=5, cap=60):
    h = Shapes(rng, ty, s, slots, maxdim)
    h.begin(al)
    # where values are only moved (or added a few times) they may be large
    h.big = s == 1 and not any(op in weights for op in ("add", "mul", "matmul", "adds"))
    for _ in range(2):
        h.try_op("load")
    for _ in range(steps):
        h.step(weights)
        for k in list(h.m):
            if h.m[k][0] * h.m[k][1] > cap:
                h.emit("del", x=k)
                del h.m[k]
    return h.cmds


WIDE = [(1, 300), (300, 1), (3, 260), (260, 3), (257, 5), (5, 257), (1, 256), (256, 1)]
CLASSES = [[s for s in WIDE if (s[0] > s[1]) == tall and (1 in s) == vec] for tall in (False, True) for vec in (False, True)]
HUGE = [(1, 65600), (65600, 1)]


def large(rng, weights, types, huge=1, skip=(), full=0):
    """Every operation on matrices with more than 255 rows or columns, and some with more than 65535:
    sizes at which an index of 8 or 16 bits is too short."""
    out = []
    for k, op in enumerate(sorted(weights)):
        if op in skip:
            continue
        pick = [(sh, 0) for sh in (WIDE if full else [rng.choice(c) for c in CLASSES])]
        if huge and op not in ("newtext", "assigntext"):
            pick += [(sh, 1) for sh in rng.sample(HUGE, huge)]
        for n, (sh, big) in enumerate(pick):
            for ty, al in rng.sample(types, len(types)):
                if big and ty[0] == "c":
                    continue
                s = 4 if op in ("div", "divs") and ty not in ("b", "u", "i") else 1
                h = Shapes(rng, ty, s, 3 if not big else 2, 5)
                if big and op in ("kron", "matmul") and sh[0] > 1 < sh[1] or op == "det":
                    break
                h.shapes = [sh]
                h.big = op not in ARITH and op not in ("matmul", "kron")
                h.begin(al)
                h.emit("load", x=0, mm=rnd_mat(rng, ty, sh[0], sh[1], s, h.big))
                h.m[0] = sh + (False,)
                need = {"swap": 2, "massign": 2, "setrow": 3, "setcol": 3}.get(op, 1)
                for x in range(1, need if not big else min(need, 2)):
                    h.try_op("load") if op not in ("setrow", "setcol") else None
                done = False
                for _ in range(40):
                    if h.try_op(op):
                        done = True
                        break
                    if len(h.m) == h.slots and op in ("new0", "newrc", "newrcv", "copy", "move", "newtext"):
                        h.try_op("del")
                    elif len(h.m) < 2:
                        h.try_op("load")
                if done:
                    out.append(h.cmds)
                    break
    return out
