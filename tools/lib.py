"""Common machinery of the checks: build drivers, run TLC, validate traces.

Verdicts come only from TLC: a model-checking run on the specification, and the
validation of traces recorded from the real library against the specification.
"""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]
NCPU = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The machinery failed; says nothing about the property."""


# ------------------------------------------------------------------ building
BASE_FLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-pthread", "-DSUSA_NDEBUG",
              "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
VARIANTS = {
    "asan": ["-fsanitize=address"],
    "nassert": ["-fsanitize=address", "-DSUSA_NASSERT"],
    "plain": ["-U_FORTIFY_SOURCE"],
    "tsan": ["-fsanitize=thread"],
    "par": ["-U_FORTIFY_SOURCE", "-DVERIF_PAR", "-fsanitize-coverage=trace-pc"],
    "parrace": ["-fsanitize=thread", "-DVERIF_PAR"],
}


def _cc(args):
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


class Builder:
    def __init__(self, work):
        self.work = work
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def build(self, wanted):
        """wanted: list of (driver name, variant). Returns {(name, variant): path}."""
        flags = lambda v: BASE_FLAGS + VARIANTS[v] + ["-I" + os.path.join(REPO, "inc"), "-I" + HARN]
        jobs = []
        variants = sorted({v for _, v in wanted})
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
        if not srcs:
            raise CheckError("no sources under %s/src" % REPO)
        objs = {v: [] for v in variants}
        out = {}
        for name, v in wanted:
            out[(name, v)] = []
            for src in [name + ".cpp"] + sorted(os.path.basename(x) for x in glob.glob(os.path.join(HARN, name + "_*.cpp"))):
                o = os.path.join(self.work, "%s.%s.drv.o" % (src, v))
                out[(name, v)].append(o)
                jobs.append(["g++"] + flags(v) + ["-c", os.path.join(HARN, src), "-o", o])
        for v in variants:
            for s in srcs:
                o = os.path.join(self.work, "%s.%s.o" % (os.path.basename(s), v))
                objs[v].append(o)
                jobs.append(["g++"] + flags(v) + ["-c", s, "-o", o])
        for (rc, log), j in zip(self.pool.map(_cc, jobs), jobs):
            if rc:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(j), log[:3000]))
        links = []
        res = {}
        for (name, v), o in out.items():
            exe = os.path.join(self.work, "%s.%s" % (name, v))
            res[(name, v)] = exe
            links.append(["g++"] + flags(v) + o + objs[v] + ["-o", exe])
        for (rc, log), j in zip(self.pool.map(_cc, links), links):
            if rc:
                raise CheckError("link failed: %s\n%s" % (" ".join(j), log[:3000]))
        return res


# ----------------------------------------------------------------------- TLC
def tlc(module, cfg, metadir, workers=1, env=None, extra=(), mem="2g", timeout=800, jopts=()):
    os.makedirs(metadir, exist_ok=True)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + mem, "-Xss1000m", "-XX:-UsePerfData"] + list(jopts) + ["-cp", ":".join(JAR), "tlc2.TLC",
           "-metadir", metadir, "-noGenerateSpecTE", "-config", cfg, "-workers", str(workers)] + list(extra) + [module]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    shutil.rmtree(metadir, ignore_errors=True)
    o = p.stdout
    r = {"rc": p.returncode, "out": o, "wall": time.time() - t0}
    m = None
    for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", o):
        pass
    r["generated"] = int(m.group(1).replace(",", "")) if m else 0
    r["distinct"] = int(m.group(2).replace(",", "")) if m else 0
    if not m:
        for m in re.finditer(r"The number of states generated: ([\d,]+)", o):
            r["generated"] = r["distinct"] = int(m.group(1).replace(",", ""))
    m = re.search(r'<<"ACCEPT", (\d+), (\d+)>>', o)
    r["accept"] = (int(m.group(1)), int(m.group(2))) if m else None
    r["evalerror"] = bool(re.search(r"Error: (Evaluating|TLC threw|The exception|Attempted|The first argument|In evaluation|The second)|tlc2\.tool\.EvalException|TLCRuntimeException|The error occurred when TLC was evaluating", o))
    r["finished"] = "Model checking completed" in o or "Finished in" in o
    return r


def printed_json(out):
    """The values that the specification printed with PrintT(ToJson(...))."""
    res = []
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"') and len(line) > 2 and line[1] in "{[":
            res.append(json.loads(json.loads(line)))
    return res


# -------------------------------------------------------------------- driver
def run_driver(exe, cmdfile, tracefile, fill=0xbe, timeout=700, env=None, cpu=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
                         "max_malloc_fill_size=16777216:malloc_fill_byte=%d:detect_stack_use_after_return=0:"
                         "max_free_fill_size=4096:free_fill_byte=%d:handle_abort=0:symbolize=0:print_legend=0:quarantine_size_mb=32" % (fill, fill ^ 0x55))
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    if cpu:
        e["DRV_CPU"] = str(cpu)
    e.update(env or {})
    try:
        p = subprocess.run([exe, cmdfile, tracefile], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out")
    if p.returncode != 0:
        raise CheckError("driver failed (%d): %s" % (p.returncode, p.stdout[-1500:]))


def dumps(x):
    return json.dumps(x, separators=(",", ":"))


class Run:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.work = os.path.join(VERIF, "work", "%s.%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.violation = None
        self.opcount = {}
        self.pool = cf.ThreadPoolExecutor(NCPU)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # -- the specification itself
    def model(self, module, cfg, emit=False, simulate=None, workers=None, timeout=800, env=None, mem="4g"):
        """Exhaustive (or simulated) checking of the specification. Returns what it printed."""
        extra = []
        if simulate:
            extra = ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
            workers = 1
        e = dict(env or {})
        e["VERIF_TIER"] = self.tier
        r = tlc(module, cfg, os.path.join(self.work, "mc-%s-%s" % (module, cfg)), workers=workers or min(4, NCPU), extra=extra, timeout=timeout, env=e, mem=mem)
        if not r["finished"] or "Error:" in r["out"] or r["rc"] not in (0,):
            tail = "\n".join(l for l in r["out"].splitlines() if not l.startswith('"') and not re.match(r'Parsing file|Semantic processing|Linting', l))[-3000:]
            raise CheckError("the specification %s/%s does not satisfy its properties:\n%s" % (module, cfg, tail))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"module": module, "config": cfg, "distinct": r["distinct"], "generated": r["generated"], "wall_s": round(r["wall"], 1), "mode": "simulate" if simulate else "exhaustive"})
        self.log("model %s (%s): %d distinct, %d generated, %.1fs" % (module, cfg, r["distinct"], r["generated"], r["wall"]))
        return sorted(printed_json(r["out"]), key=lambda x: json.dumps(x, sort_keys=True)) if emit else []   # TLC's workers print in any order

    def control(self, module, cfg, timeout=300):
        """A run that must find a violation: the properties are not vacuous."""
        r = tlc(module, cfg, os.path.join(self.work, "mc-%s-%s" % (module, cfg)), workers=2, timeout=timeout, env={"VERIF_TIER": self.tier}, mem="4g")
        if not re.search(r"Error: Invariant \S+ is violated|Error: Action property .* is violated", r["out"]):
            raise CheckError("the control %s/%s found no violation:\n%s" % (module, cfg, r["out"][-2000:]))
        self.models.append({"module": module, "config": cfg, "mode": "control: must violate", "wall_s": round(r["wall"], 1)})
        self.log("control %s (%s): violated, as it must" % (module, cfg))

    def build(self, wanted):
        b = Builder(self.work).build(wanted)
        self.log("built", ", ".join("%s.%s" % k for k in b))
        return b

    # -- conformance
    def _chunk(self, exe, sessions, spec, cfg, tag, fill, env, cpu, workers=1):
        cmd = os.path.join(self.work, tag + ".cmd")
        tr = os.path.join(self.work, tag + ".tr")
        with open(cmd, "w") as f:
            for s in sessions:
                for c in s:
                    f.write(dumps(c) + "\n")
        run_driver(exe, cmd, tr, fill=fill, env=env, cpu=cpu)
        return self.validate(tr, spec, cfg, tag)

    def validate(self, tr, spec, cfg, tag):
        n = sum(1 for _ in open(tr))
        if n == 0:
            return {"ok": True, "n": 0, "pos": 0, "tr": tr, "states": 0}
        r = tlc(spec, cfg, os.path.join(self.work, "md-" + tag), env={"TRACE": tr}, extra=["-deadlock"] if False else [])
        if r["accept"]:
            pos, ln = r["accept"]
            if ln != n:
                raise CheckError("trace length mismatch %d %d" % (ln, n))
            return {"ok": pos >= n, "n": n, "pos": pos, "tr": tr, "states": r["distinct"], "eval": None}
        if r["evalerror"]:
            # An observation outside the domain of the specification is not one of its behaviours.
            m = re.findall(r"^State (\d+):", r["out"], re.M)
            lno = re.findall(r"^/?\\?\s*l = (\d+)", r["out"], re.M) or re.findall(r"\bl = (\d+)", r["out"])
            pos = (int(lno[-1]) - 1) if lno else (int(m[-1]) - 1 if m else 0)
            return {"ok": False, "n": n, "pos": min(pos, n - 1), "tr": tr, "states": r["distinct"], "eval": r["out"][-2500:]}
        raise CheckError("TLC failed on the trace %s (%s):\n%s" % (tr, spec, r["out"][-3000:]))

    def conform(self, exe, sessions, spec, cfg="Trace.cfg", name=None, env=None, cpu=None, chunks=None, fills=(0xbe, 0x7f), racy=False):
        """Run the sessions on the real code and validate the traces. Stops at the first confirmed rejection.
        racy: what the code does depends on the schedule of the machine, so a recorded rejection stands by itself."""
        if self.violation:
            return
        name = name or spec
        sessions = [s if isinstance(s, list) else [s] for s in sessions]
        if not sessions:
            return
        k = chunks or NCPU
        parts = [[] for _ in range(k)]
        load = [0] * k
        for s in sessions:
            j = load.index(min(load))
            parts[j].append(s)
            load[j] += len(s)
        parts = [p for p in parts if p]
        t1 = time.time()
        futs = [self.pool.submit(self._chunk, exe, p, spec, cfg, "%s-%d" % (name, j), fills[j % len(fills)], env, cpu) for j, p in enumerate(parts)]
        results = [f.result() for f in futs]
        tot = 0
        for j, r in enumerate(results):
            tot += r["n"]
            self.states += r["states"]
            self.transitions += r["states"]
        self.events += tot
        self.traces += len(sessions)
        for p in parts:
            for s in p:
                for c in s:
                    if c.get("op") != "par":
                        self.opcount[c.get("op", "?")] = self.opcount.get(c.get("op", "?"), 0) + 1
        bad = [(j, r) for j, r in enumerate(results) if not r["ok"]]
        self.log("%s: %d sessions, %d events, %.1fs%s" % (name, len(sessions), tot, time.time() - t1, "" if not bad else ", REJECTED"))
        if results and results[0]["n"] and len(self.samples) < 6:
            lines = open(results[0]["tr"]).read(200000).splitlines()
            for ln in (lines[0], lines[len(lines) // 2]):
                self.samples.append({"trace": name, "event": ln[:600]})
        for j, r in bad:
            self._reject(exe, parts[j], spec, cfg, name, fills[j % len(fills)], env, cpu, r, racy)
            if self.violation:
                break
        for r in results:
            try:
                os.unlink(r["tr"])
            except OSError:
                pass

    def _locate(self, sessions, tr, pos):
        """The session that contains line pos (0-based) of the trace (sessions cut short by a stop count as recorded)."""
        with_begin = sessions and any(c.get("op") == "begin" for s in sessions for c in s)
        lines = open(tr).read().splitlines()
        if not with_begin:
            n = 0
            for s in sessions:
                k = sum(c.get("op") != "par" for c in s)
                if pos < n + k:
                    return s
                n += k
            return sessions[-1]
        k = 0
        for i in range(min(pos, len(lines) - 1) + 1):
            if json.loads(lines[i]).get("op") == "begin":
                k += 1
        for s in sessions:
            k -= sum(c.get("op") == "begin" for c in s)
            if k <= 0:
                return s
        return sessions[-1]

    def _reject(self, exe, sessions, spec, cfg, name, fill, env, cpu, r, racy=False):
        line = open(r["tr"]).read().splitlines()[min(r["pos"], r["n"] - 1)]
        self.log("%s: the specification rejects event %d of %d: %s" % (name, r["pos"] + 1, r["n"], line[:700]))
        if r.get("eval"):
            self.log("evaluation: " + r["eval"][:1500])
        s = self._locate(sessions, r["tr"], r["pos"])
        r2 = self._chunk(exe, [s], spec, cfg, name + "-confirm", fill, env, cpu)
        repro = [s]
        if r2["ok"]:
            r2 = self._chunk(exe, sessions, spec, cfg, name + "-confirm", fill, env, cpu)
            repro = sessions
            if r2["ok"]:
                r2 = self._chunk(exe, sessions, spec, cfg, name + "-confirm", fill, env, cpu)
        if r2["ok"] and racy and json.loads(line).get("out") != "timeout":
            bad = line
        elif r2["ok"]:
            raise CheckError("the rejection did not repeat; event: " + line[:500])
        else:
            bad = open(r2["tr"]).read().splitlines()[min(r2["pos"], r2["n"] - 1)]
        os.makedirs(os.path.join(VERIF, "work", "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "work", "replay", "%s-%s.json" % (self.pid, name))
        with open(rp, "w") as f:
            json.dump({"property": self.pid, "spec": spec, "cfg": cfg, "driver": os.path.basename(exe), "fill": fill,
                       "env": env, "rejected_event": bad[:20000], "sessions": repro}, f)
        self.violation = {"replay": os.path.relpath(rp, VERIF), "event": bad[:1000], "spec": spec}

    # -- results
    def finish(self, desc, assumptions=(), extra=None):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "models": self.models, "operations": self.opcount,
               "samples": self.samples, "explanation": desc}
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": 1 if self.violation else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        for k in known_findings(self.pid):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violation:
            print("rejected by %s: %s" % (self.violation["spec"], self.violation["event"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violation["replay"]), flush=True)
            return 1
        self.log("ok: %d states, %d traces, %d events" % (self.states, self.traces, self.events))
        return 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append(m.group(2))
    return res
