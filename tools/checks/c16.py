import itertools

USES = ["plain", "copy", "assign", "reassign", "reset", "after"]


def octal(v):
    return int(oct(v)[2:])


def gens(g, n, m):
    out = []
    for _ in range(n):
        v = g.getrandbits(m + 1)
        k = g.randrange(5)
        if k == 0:
            v |= 1
        elif k == 1:
            v |= 1 << m
        elif k == 2:
            v |= 1 | 1 << m
        out.append(octal(v))
    return out


def msg(g, n):
    k = g.randrange(5)
    if k == 0:
        return [g.choice([0, 1, 2, 255, 128, 0, 4]) for _ in range(n)]
    if k == 1:
        return [1] * n
    return [g.randint(0, 1) for _ in range(n)]


def check(run):
    exe = run.build([("d_code", "asan")])[("d_code", "asan")]
    g = run.rng
    es = []
    L = run.n(4, 6)
    msgs = [list(t) for n in range(1, L + 1) for t in itertools.product((0, 1), repeat=n)]
    for p in run.model("MCCode", "MCCode_thorough.cfg" if run.thorough else "MCCode.cfg", emit=True):
        if p["op"] != "enc":
            continue
        u = g.choice(USES)
        ms = list(msgs)
        g.shuffle(ms)
        es.append({"op": "enc", "m": p["m"], "gen": p["gen"], "use": u, "msgs": ms})
        es.append({"op": "tab", "m": p["m"], "gen": p["gen"], "use": g.choice(USES), "st": list(range(2 ** p["m"]))})
    for _ in range(run.n(300, 5000)):
        m = g.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 17, 20, 24, 26, 27])
        n = g.choice([1, 2, 2, 3, 4, 5, 7, 8, 9, 12])
        e = {"op": "enc", "m": m, "gen": gens(g, n, m), "use": g.choice(USES), "msgs": [msg(g, g.choice([1, 2, 3, m, m + 1, 2 * m + 3, 40])) for _ in range(g.randint(1, 5))]}
        if g.randint(0, 1):
            e["state"] = g.getrandbits(m)
        es.append(e)
        st = list(range(2 ** m)) if m <= 5 else [0, 1, 2 ** m - 1, 2 ** (m - 1)] + [g.getrandbits(m) for _ in range(20)]
        es.append({"op": "tab", "m": m, "gen": gens(g, n, m), "use": g.choice(USES), "st": st})
    # long messages
    for _ in range(run.n(4, 30)):
        m = g.randint(2, 7)
        es.append({"op": "enc", "m": m, "gen": gens(g, 2, m), "use": "plain", "msgs": [msg(g, 300), msg(g, 7)]})
    for n in (300, 700) * run.n(1, 3):
        m = g.randint(2, 7)
        es.append({"op": "enc", "m": m, "gen": gens(g, 2, m), "use": "plain", "msgs": [msg(g, n)]})
    g.shuffle(es)
    run.conform(exe, es, "TrCode", name="encoder")
    return run.finish("TLC checks for all small codes and messages that the state machine emits the convolution with the generators, is linear and forgets its oldest bit; "
                      "all these messages and codes, and random ones up to 27 memories and 12 outputs, run on the library (original, copied, assigned and re-used encoders, "
                      "arbitrary internal state before), and TLC decides every output bit, the tables of next states and outputs, and the rate.",
                      ["memories 28 to 31 and more than 12 outputs are not explored; output words are compared for at most 8 outputs, as they have 8 bits"])
