"""The chronometer and the time stamp."""
ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "XST-5:45", "XST3:30", "XST-14", "XST12"]


class Clock:
    def __init__(self, g):
        self.g, self.t = g, (g.randint(1, 36500) * 86400 + g.choice([0, 1, 43199, 86398, 86399, g.randint(0, 86399)])) * 1000 + g.choice([0, 0, 999, g.randint(0, 999)])

    def cmd(self, op, **k):
        return dict({"op": op, "day": self.t // 86400000, "sec": self.t // 1000 % 86400, "milli": self.t % 1000, "nano": self.g.choice([0, 0, 999999, self.g.randint(0, 999999)])},
                    tz=self.g.choice(ZONES), **k)

    def wait(self, ms):
        self.t += ms


def check(run):
    g = run.rng
    b = run.build([("d_clock", "asan")])[("d_clock", "asan")]
    ps = run.model("MCClock", "MCClock.cfg", emit=True)
    total = len(ps)
    ss = []
    for p in g.sample(ps, min(len(ps), run.n(600, 5000))):
        c = Clock(g)
        s = [{"op": "begin"}]
        for e in p["script"]:
            c.wait(e["wait"])
            s.append(c.cmd(e["op"]))
        ss.append(s)
    run.conform(b, ss, "TrClock", name="model-scripts")
    # every border of a day, a month, a year and summer time, and random moments
    ss = []
    for k in range(run.n(3000, 40000)):
        c = Clock(g)
        c.t = (k * 12 + g.randint(1, 11)) % 36500 * 86400000 + g.choice([0, 999, 1000 * g.choice([1, 59, 60, 3599, 3600, 7199, 7200, 10799, 10800, 32399, 32400, 35999, 36000, 86399]), g.randint(0, 86399999)])
        ss.append([{"op": "begin"}, c.cmd("stamp"), c.cmd("stamp")])
    # the Sundays of March, October and November
    for k in range(run.n(600, 6000)):
        c = Clock(g)
        y = g.randint(0, 98)
        m = g.choice([60, 66, 73, 80, 87, 90, 296, 303, 304, 308, 311])
        c.t = (y * 365 + y // 4 + m + g.randint(-3, 3)) * 86400000 + g.choice([0, 3600, 21600, 25200]) * 1000 + g.choice([-1, 0, 3599999, 3600000])
        ss.append([{"op": "begin"}, c.cmd("stamp"), c.cmd("stamp"), c.cmd("stamp")])
    run.conform(b, ss, "TrClock", name="stamps")
    ss = []
    for k in range(run.n(400, 6000)):
        c = Clock(g)
        s = [{"op": "begin"}, c.cmd("tic")]
        for j in range(g.randint(1, 12)):
            c.wait(g.choice([0, 1, 10, 999, 1000, g.randint(0, 100000), g.randint(0, 100000000)]))
            s.append(c.cmd(g.choice(["tic", "toc", "toc", "print", "stamp"])))
        ss.append(s)
    run.conform(b, ss, "TrClock", name="chronometer")
    return run.finish("TLC walks through every day of the century and shows that the calendar of the specification, its Sundays and its summer time agree with counting days; the chronometer's "
                      "short uses and random ones, and moments at all kinds of borders, run on the library under a clock that the commands set, and TLC decides every stamp and reading.",
                      ["years 2000 to 2099; zones without history; elapsed times below 23 days, up to a millisecond (and six digits where printed)", "a reading may restart the chronometer, as the documentation says, or not"],
                      {"scripts_in_model": total})
