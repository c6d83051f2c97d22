"""Threads that work on objects of their own do not influence each other."""
import concurrent.futures as cf
import json
from record import record

# the checks whose commands run in threads, and how many commands a thread executes where commands form no sessions
OTHERS = ["C01", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"]
COSTLY = {"C20": 4, "C21": 4, "C13": 3, "C12": 2, "C25": 2, "C17": 2, "C19": 2}


def runs(order):
    out = []
    for t in order:
        if out and out[-1][0] == t:
            out[-1][1] += 1
        else:
            out.append([t, 1])
    return out


def milli(g, p, k):
    """A schedule of the model: the steps of each thread are cut at equal or at random places of its session."""
    cuts = []
    for n in p["lens"]:
        n = n or 1
        c = [1000 * j // n for j in range(n + 1)] if k % 2 else [0] + sorted(g.randint(0, 1000) for _ in range(n - 1)) + [1000]
        cuts.append([c[j + 1] - c[j] for j in range(n)])
    at = [0] * len(cuts)
    res = []
    for t, n in runs(p["order"]):
        res.append([t, sum(cuts[t][at[t]:at[t] + n])])
        at[t] += n
    return {"op": "par", "milli": 1, "slices": res}


def fine(g, n):
    top = g.choice([3, 10, 40, 150, 600, 3000])
    return {"op": "par", "milli": 0, "slices": [[g.randrange(n), g.randint(1, top)] for _ in range(g.choice([20, 100, 400]))]}


def alike(s):
    c = [e for e in s if e["op"] != "begin"]
    return c[0]["op"] if len(c) == 1 else ""


def group(g, ss, n):
    """n sessions, preferably of the same operation."""
    first = g.choice(ss)
    same = [s for s in ss if alike(s) == alike(first)]
    return [first] + [g.choice(same if g.random() < 0.7 else ss) for _ in range(n - 1)]


def join(head, gs):
    return [dict(head, lens=[len(s) for s in gs])] + [c for s in gs for c in s]


def check(run):
    g = run.rng
    two = run.model("MCReentrant", "MCReentrant.cfg", emit=True)
    three = run.model("MCReentrant", "MCReentrant_three.cfg", emit=True)
    run.control("MCReentrant", "MCReentrant_shared.cfg")
    pick = []
    for pid in OTHERS:
        for exe, sessions, spec, env in record(pid, run.seed):
            if exe[1] not in ("asan", "plain"):
                continue
            small = [s for s in sessions if len(json.dumps(s)) < (6000 if len(s) > 1 else 500 if pid in ("C17", "C19") else 1500) and len(s) <= 80 and all(c.get("n", 0) <= 2000 for c in s)]
            if small:
                pick.append((pid, exe[0], spec, env, small))
    drivers = sorted({p[1] for p in pick})
    exe = run.build([(d, "par") for d in drivers] + [(d, "parrace") for d in drivers])
    # share the number of groups of a check among its kinds of sessions
    per = {}
    for p in pick:
        per[p[0]] = per.get(p[0], 0) + 1
    jobs = []
    for k, (pid, d, spec, env, ss) in enumerate(pick):
        keep = max(8, run.n(80, 1500) // per[pid] // COSTLY.get(pid, 1))
        gs = []
        for j in range(keep):
            if j % 3 == 0:
                gs.append(join(milli(g, g.choice(two), j), group(g, ss, 2)))
            elif j % 9 == 1:
                gs.append(join(milli(g, g.choice(three), j), group(g, ss, 3)))
            else:
                n = g.choice([2, 2, 3])
                gs.append(join(fine(g, n), group(g, ss, n)))
        jobs.append(dict(exe=exe[(d, "par")], sessions=gs, spec=spec, name="held-%s-%d" % (pid, k), env=env, chunks=max(1, keep // 40)))
        gs = [join({"op": "par", "slices": []}, group(g, ss, g.choice([2, 4]))) for _ in range(max(3, keep // 5))]
        jobs.append(dict(exe=exe[(d, "parrace")], sessions=gs, spec=spec, name="free-%s-%d" % (pid, k), env=env, chunks=max(1, keep // 100), racy=True))
    with cf.ThreadPoolExecutor(6) as pool:
        for f in [pool.submit(lambda j: run.conform(**j), j) for j in jobs]:
            f.result()
    return run.finish("TLC explores all schedules of two and three threads whose calls read, compute and store in objects of their own, and shows that each thread gets what it would "
                      "get alone (a control with a shared work space violates this). The commands of the other checks run in two to four threads of one process: held at the begin of any "
                      "basic block of the library along the schedules of the model and random ones, and running freely under the thread sanitizer; TLC decides the trace of every thread "
                      "with the specification of its operations, as if the thread were alone.",
                      ["threads share no object; the chronometer tic/toc is one per process", "a thread is held at basic blocks of the library's own code, not inside the standard library"])
