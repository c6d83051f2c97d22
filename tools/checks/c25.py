def check(run):
    exe = run.build([("d_rrc", "asan")])[("d_rrc", "asan")]
    g = run.rng
    es = [dict(p, op="rrc", twice=g.randint(0, 1)) for p in run.model("MCRRC", "MCRRC.cfg", emit=True)]
    for k in range(run.n(700, 6000)):
        N = 2 * g.randint(0, 25) + 1
        if k % 30 == 0:
            N = g.choice([51, 65, 81, 99, 101, 127])
        B = g.choice([1, 2, 3, 4, 7, 10, 20, 100])
        A = g.choice([0, B, g.randint(0, B), g.randint(0, B)])
        es.append({"op": "rrc", "L": g.choice([1, 2, 3, 4, 5, 6, 8, 10, 16]), "A": A, "B": B, "N": N, "twice": g.randint(0, 1)})
    g.shuffle(es)
    run.conform(exe, es, "TrRRC", name="taps")
    return run.finish("TLC checks on a grid of parameters that the specified spectrum is a square-root Nyquist spectrum and that the relation between taps and spectrum "
                      "accepts its inverse transform; the same and random parameters run on the library, and TLC decides symmetry, energy and every frequency "
                      "sample of the recorded taps in fixed point.", ["tolerance about (40+N)/65536 per frequency sample"])
