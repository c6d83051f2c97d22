from fractions import Fraction as F


def det(a):
    n = len(a)
    if n == 0:
        return 1
    a = [[F(v) for v in r] for r in a]
    d = F(1)
    for k in range(n):
        p = next((i for i in range(k, n) if a[i][k] != 0), None)
        if p is None:
            return F(0)
        if p != k:
            a[p], a[k] = a[k], a[p]
            d = -d
        d *= a[k][k]
        for i in range(k + 1, n):
            f = a[i][k] / a[k][k]
            a[i] = [x - f * y for x, y in zip(a[i], a[k])]
    return d


def minor(a, i, j):
    return [[a[p][q] for q in range(len(a)) if q != j] for p in range(len(a)) if p != i]


def growth(a):
    """Largest entry of the adjugate and of the inverse: only used to choose inputs inside the stated bounds."""
    n = len(a)
    d = det(a)
    m = max(abs(det(minor(a, i, j))) for i in range(n) for j in range(n))
    return d, m, (m / abs(d) if d else None)


def mm(a):
    r, c = len(a), len(a[0])
    return {"r": r, "c": c, "d": [a[i][j] for j in range(c) for i in range(r)]}


def rows(m):
    return [[m["d"][j * m["r"] + i] for j in range(m["c"])] for i in range(m["r"])]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def special(g, n):
    """Matrices whose elimination is likely to need pivoting or to meet zero pivots, and low-rank ones."""
    k = g.randrange(9)
    hi = {1: 40, 2: 40, 3: 25, 4: 5, 5: 3, 6: 2, 7: 2, 8: 1}[n]
    e = lambda: g.randint(-hi, hi)
    a = [[e() for _ in range(n)] for _ in range(n)]
    if k == 0:                                   # permutation times triangular
        a = [[e() if j > i else g.choice([1, -1, 2]) if i == j else 0 for j in range(n)] for i in range(n)]
        g.shuffle(a)
    elif k == 1:                                 # zero leading minors
        for i in range(n):
            a[i][i] = 0
    elif k == 2 and n > 1:                       # a row is a combination of others
        i, j = g.sample(range(n), 2)
        a[i] = list(a[j]) if g.randint(0, 1) else [-v for v in a[j]]
    elif k == 3 and n > 1:
        j = g.randrange(n)
        for i in range(n):
            a[i][j] = 0
    elif k == 4:                                 # equal pivots
        a = [[g.choice([-1, 1]) for _ in range(n)] for _ in range(n)]
    elif k == 5:
        a = [[g.choice([0, 0, 1]) for _ in range(n)] for _ in range(n)]
    elif k == 6:                                 # the pivot grows: the last row dominates
        a = [[min(hi, i + 1) * g.choice([1, -1]) if j == 0 else g.randint(-2, 2) for j in range(n)] for i in range(n)]
    elif k == 7 and n > 2:
        a[0] = [0] * (n - 1) + [1]
        a[1] = [0] * (n - 2) + [1, e()]
    return a


def dyadic(g, n):
    """A = L U with dyadic multipliers, possibly with a zero pivot."""
    l = [[1 if i == j else g.choice([-2, -1, 0, 1, 2]) if j < i else 0 for j in range(n)] for i in range(n)]
    z = g.randrange(n) if g.random() < 0.4 else -1
    u = [[(0 if i == z else g.choice([1, -1, 2, -2, 4])) if i == j else g.randint(-4, 4) if j > i else 0 for j in range(n)] for i in range(n)]
    return mul(l, u)


def fits(a):
    n = len(a)
    if max(abs(v) for r in a for v in r) > 60:
        return None
    d, m, inv = growth(a)
    if m > 1800 or (d and inv > 64) or abs(d) > 200000:
        return None
    return d


def lu_fits(a):
    """Leading minors and the factors stay small."""
    n = len(a)
    for k in range(1, n):
        d = det([r[:k] for r in a[:k]])
        if d == 0:
            return True
        if abs(d) > 5000:
            return False
    b = [[F(v) for v in r] for r in a]
    for k in range(n):
        for i in range(k + 1, n):
            b[i][k] /= b[k][k]
            for j in range(k + 1, n):
                b[i][j] -= b[i][k] * b[k][j]
    return max(abs(v) for r in b for v in r) <= 200


def events(g, a, s):
    n = len(a)
    out = []
    t = g.choice("ddf")
    b = [g.randint(-30, 30) for _ in range(n)]
    b2 = [g.choice([0, 0, 1, -7]) for _ in range(n)]
    vb = lambda v: mm([v]) if g.randint(0, 1) else mm([[x] for x in v])
    d = fits(a)
    if d is not None:
        for op in ("lup", "lupalt"):
            out.append({"op": op, "t": t, "s": s, "x": mm(a), "again": g.randint(0, 2), "tn": 0, "td": 0, "b": vb(b), "b2": vb(b2)})
        if d:
            out.append({"op": "inv", "t": t, "s": s, "x": mm(a)})
            out.append({"op": "linsolve", "t": t, "s": s, "x": mm(a), "b": vb(b)})
    if lu_fits(a):
        out.append({"op": "lu", "t": t, "s": s, "x": mm(a), "again": g.randint(0, 1)})
    out.append(rank_event(g, a, s))
    return out


def rank_event(g, a, s):
    t = g.choice("ddibf") if s == 1 else g.choice("df")
    return {"op": "rank", "t": t, "al": g.choice(["std", "log"]), "s": s, "x": mm(a), "eps": g.choice([0, 0, 100000]) if t != "f" else 10000}


def check(run):
    exe = run.build([("d_solver", "asan")])[("d_solver", "asan")]
    g = run.rng
    ms = run.model("MCSolver", "MCSolver_thorough.cfg" if run.thorough else "MCSolver.cfg", emit=True)
    if len(ms) > run.n(3500, 60000):
        small = [m for m in ms if m["r"] * m["c"] <= 4]
        rest = [m for m in ms if m["r"] * m["c"] > 4]
        k = run.n(3500, 60000)
        ms = g.sample(small, min(len(small), k // 3)) + g.sample(rest, min(len(rest), 2 * k // 3))
    es = []
    for m in ms:
        a = rows(m)
        es += events(g, a, g.choice([1, 1, 1, 4])) if m["r"] == m["c"] else [rank_event(g, a, 1)]
    for _ in range(run.n(1500, 25000)):
        n = g.choice([1, 2, 3, 3, 4, 4, 5, 5, 6])
        es += events(g, special(g, n) if g.random() < 0.6 else dyadic(g, n), g.choice([1, 1, 2, 4, 64]))
    # tolerances: permuted diagonal matrices with entries around the tolerance
    for _ in range(run.n(400, 4000)):
        n = g.randint(1, 4)
        td, tn = g.choice([(1, 8), (1, 3), (2, 7), (1, 20)])
        p = list(range(n))
        g.shuffle(p)
        a = [[(g.choice([tn // td, tn // td + 1, tn // td - 1, 30, tn // td]) * g.choice([1, -1])) if p[i] == j else 0 for j in range(n)] for i in range(n)]
        if any(a[i][p[i]] == 0 for i in range(n)):
            continue
        for op in ("lup", "lupalt"):
            es.append({"op": op, "t": g.choice("df"), "s": g.choice([1, 2, 8]), "x": mm(a), "again": 0, "tn": tn, "td": td,
                       "b": mm([[g.randint(-9, 9)] for _ in range(n)]), "b2": mm([[1]] * n)})
    # ranks of products, all shapes
    for _ in range(run.n(1500, 15000)):
        r, c = g.randint(1, 6), g.randint(1, 6)
        k = g.randint(0, min(r, c))
        if k == 0:
            a = [[0] * c for _ in range(r)]
        else:
            a = mul([[g.randint(-2, 2) for _ in range(k)] for _ in range(r)], [[g.randint(-2, 2) for _ in range(c)] for _ in range(k)])
        if g.random() < 0.2:
            a[g.randrange(r)] = [0] * c
        es.append(rank_event(g, a, g.choice([1, 1, 2, 4])))
    g.shuffle(es)
    run.conform(exe, es, "TrSolver", name="solvers")
    return run.finish("TLC explores the pivoted elimination with every choice of equal pivots for every small matrix and shows that every run factors the matrix, "
                      "that it stops exactly for singular matrices, and that the rank is that of the largest non-zero minor; the same matrices and larger "
                      "random, structured, singular and nearly singular ones run on the library, and TLC decides every factorisation (product, shape, "
                      "permutation, success), solution, inverse and rank.",
                      ["well-conditioned: integer matrices over a common scale with minors below 1800 and inverse entries below 64",
                       "where pivots are equal, or within rounding of the tolerance, every choice is accepted"])
