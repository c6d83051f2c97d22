def nat(n):
    d = []
    while n:
        d.append(n % 16384)
        n //= 16384
    return d


def z(n):
    return [(n > 0) - (n < 0), nat(abs(n))]


def check(run):
    exe = run.build([("d_scalar", "asan")])[("d_scalar", "asan")]
    g = run.rng
    run.model("MCScalar", "MCScalar.cfg")
    ev = []
    # integer powers: every base and exponent whose power fits
    for t, lim in (("i", 2 ** 31), ("u", 2 ** 32)):
        bases = list(range(-12 if t == "i" else 0, 13)) + [g.randint(13, 70000) for _ in range(run.n(60, 2000))]
        if t == "i":
            bases += [-g.randint(13, 46000) for _ in range(run.n(40, 1000))] + [-2 ** 31, 2 ** 31 - 1]
        else:
            bases += [2 ** 32 - 1, 65535, 65536]
        for b in bases:
            for p in range(0, 40):
                if (b ** p < lim) if b >= 0 or t == "u" else (-lim <= b ** p < lim):
                    ev.append({"op": "pow", "t": t, "b": z(b), "p": p})
                elif p > 1:
                    break
    # floor of the binary logarithm: all of 8 bits, boundaries and random values of the wider types
    ev += [{"op": "log2", "t": "8", "a": nat(a)} for a in range(1, 256)]
    for w in (16, 32, 64):
        for k in range(w):
            ev += [{"op": "log2", "t": str(w), "a": nat(a)} for a in {2 ** k - 1, 2 ** k, 2 ** k + 1, 2 ** (k + 1) - 1} if 0 < a < 2 ** w]
        ev += [{"op": "log2", "t": str(w), "a": nat(g.randint(1, 2 ** g.randint(1, w) - 1))} for _ in range(run.n(40, 2000))]
    # modulus
    L = 2 ** 63

    def md(a, m):
        if m and -L <= a < L and -L <= m < L:
            ev.append({"op": "mod", "a": z(a), "m": z(m), "qq": z(a // m)})
    for a in range(-13, 14):
        for m in range(-6, 7):
            md(a, m)
    edge = [0, 1, -1, 2, L - 1, -L, -L + 1, 2 ** 24 + 1, 2 ** 31, -2 ** 31, 2 ** 53 + 1, -2 ** 53 - 1]
    for a in edge:
        for m in edge:
            md(a, m)
    for _ in range(run.n(600, 20000)):
        m = g.choice([1, -1]) * g.randint(1, 2 ** g.randint(1, 62))
        a = g.choice([g.randint(-2 ** g.randint(1, 63), 2 ** g.randint(1, 63) - 1), m * g.randint(-9, 9) + g.randint(-1, 1)])
        md(a, m)
    for t in "idfbul":
        for v in [0, 1, -1, 2, 127, -128, 100000, -100000, 2 ** 31 - 1, -2 ** 31 + 1] + [g.randint(-99, 99) for _ in range(20)]:
            if (t == "b" and not -128 <= v < 128) or (t == "u" and not 0 <= v < 256):
                continue
            ev.append({"op": "sign", "t": t, "s": g.choice([1, 1000]) if t in "df" else 1, "v": v})
    for _ in range(run.n(1500, 40000)):
        d = g.choice([None, -2, -1, 0, 1, 2, 3, 4, 5, 9])
        step = 10 ** max(0, 5 - d) if d is not None and d > 0 else 100000
        v = g.choice([g.randint(-10 ** 7, 10 ** 7), g.randint(-5000, 5000) * step % 10 ** 8, g.randint(-200, 200) * step + step // 2 + g.choice([-1, 1]), g.randint(-99, 99)])
        e = {"op": "round", "v": v}
        if d is not None:
            e["dec"] = d
        ev.append(e)
    for _ in range(run.n(60, 2000)):
        ev.append({"op": "roundbig", "a": z(g.choice([1, -1]) * g.randint(0, 2 ** g.choice([31, 33, 40, 52]))), "dec": g.choice([-1, 0])})
    for op in ("normcdf", "qfunc"):
        pts = list(range(-7 * 65536, 7 * 65536 + 1, run.n(1024, 64))) + [0, 1, -1, 10 ** 9, -10 ** 9, 10 * 65536, -10 * 65536]
        pts += [g.randint(-5 * 65536, 5 * 65536) for _ in range(run.n(500, 20000))]
        ev += [{"op": op, "v": v} for v in pts]
        ev += [{"op": op, "v": v, "mul": m} for v in (10 ** 9, -10 ** 9) for m in (10 ** 6, 10 ** 15)]
    run.conform(exe, ev, "TrScalar", name="calls")
    return run.finish("Big decides integer powers, logarithms and moduli of any width exactly; Phi decides the normal distribution function from tables whose "
                      "differential equations TLC checks. Calls cover all 8-bit logarithms, all small powers and moduli, the limits of the types, a fine grid "
                      "of the normal distribution and random arguments.", ["the tables of the normal distribution are accurate to about 20 units of 1e-9"])
