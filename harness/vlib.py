"""Shared machinery: TLC runs, verdicts, evidence, known findings."""
import hashlib, json, math, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from fractions import Fraction

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


# ---------------------------------------------------------------- quantities
def q(x):
    """A quantity for TLC: int when integral, else a decimal string."""
    if isinstance(x, bool):
        return x
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 and abs(x) < 10**9 else repr(float(x))
    if isinstance(x, int):
        return x if abs(x) < 10**9 else repr(float(x))
    x = float(x)
    if math.isnan(x):
        return "NaN"
    if math.isinf(x):
        return "Infinity" if x > 0 else "-Infinity"
    if x == int(x) and abs(x) < 10**9:
        return int(x)
    return repr(x)


def tla(o):
    """Recursively prepare a Python object for ndJsonDeserialize (no nulls, no floats)."""
    import numpy as np
    if o is None:
        return "null"
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, str):
        return o
    if isinstance(o, (int, float, Fraction, np.integer, np.floating)):
        return q(o.item() if isinstance(o, (np.integer, np.floating)) else o)
    if isinstance(o, dict):
        return {str(k): tla(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [tla(v) for v in o]
    if isinstance(o, (set, frozenset)):
        return sorted(tla(v) for v in o)
    raise TypeError(f"cannot send {type(o)} to TLC")


# ---------------------------------------------------------------- TLC
class MachineryError(Exception):
    pass


_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="verif-work-")
    return _work


def num_classes():
    d = os.path.join(workdir(), "classes")
    if not os.path.isdir(d):
        os.makedirs(d)
        r = subprocess.run(["javac", "-nowarn", "-cp", TLAJARS, "-d", d, os.path.join(SPEC, "java", "Num.java")], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("javac: " + r.stderr)
    return d


def java(args, cwd, timeout, heap="2g", env=None, override=True, parallel=False):
    cp = (num_classes() + ":" if override else "") + TLAJARS
    gc = "-XX:+UseParallelGC" if parallel else "-XX:+UseSerialGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=%d" % (4 if parallel else 4),
           "-cp", cp, "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + workdir(), "tlc2.TLC"] + args
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


STATS = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def parse_stats(out):
    g = d = 0
    for m in STATS.finditer(out):
        g, d = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    return g, d


JUDGE = """---- MODULE %(name)s ----
EXTENDS %(module)s, TLC, Json, IOUtils
VARIABLE i
TheEvents == ndJsonDeserialize(IOEnv.EVENTS)
NEvents == Len(TheEvents)
JInit == i = 0
JNext == /\\ i < NEvents
         /\\ i' = i + 1
         /\\ LET f == %(op)s(TheEvents[i + 1])
            IN f = {} \\/ PrintT("@V@" \\o ToJson(<<i + 1, f>>))
JSpec == JInit /\\ [][JNext]_i
JDone == TLCGet("stats").diameter - 1 = NEvents
====
"""
JUDGECFG = "SPECIFICATION JSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION JDone\n"


def _copy_spec(d):
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)


def _judge_shard(job):
    module, op, events, timeout = job
    d = tempfile.mkdtemp(prefix="j-", dir=workdir())
    _copy_spec(d)
    name = "Judge_" + module
    open(os.path.join(d, name + ".tla"), "w").write(JUDGE % dict(name=name, module=module, op=op))
    open(os.path.join(d, name + ".cfg"), "w").write(JUDGECFG)
    verdicts, gen, dist, base = {}, 0, 0, 0
    todo = list(events)
    while todo:
        with open(os.path.join(d, "ev.ndjson"), "w") as f:
            for e in todo:
                f.write(json.dumps(e) + "\n")
        r = java(["-workers", "1", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-config", name + ".cfg", name + ".tla"],
                 d, timeout, env={"EVENTS": "ev.ndjson"})
        last = 0
        for line in r.stdout.splitlines():
            m = re.match(r'^"?@V@(.*?)"?$', line)
            if m:
                s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
                idx, fs = json.loads(s)
                verdicts[base + idx - 1] = sorted(fs)
                last = idx
        g, di = parse_stats(r.stdout)
        gen += g
        dist += di
        if r.returncode == 0 and "No error has been found" in r.stdout:
            break
        # an event the specification cannot even evaluate is not a behaviour of it
        # (75: TLC's exit code for a failed evaluation, as opposed to parse errors or exhaustion)
        if (r.returncode == 75 or "nested" in r.stdout and "evaluating" in r.stdout) and di >= 1:
            bad = di - 1               # 0-based index of the event that failed to evaluate
            if bad < len(todo) and len(verdicts) < 200:
                msg = re.search(r"Error: (.*?)\nError: The error occurred", r.stdout, re.S) or re.search(r"Reason:\n(.*?)\n\d+ states", r.stdout, re.S)
                if os.environ.get("VERIF_DEBUG"):
                    print(r.stdout[-6000:])
                verdicts[base + bad] = ["ill-formed-observation: " + re.sub(r"\s+", " ", (msg.group(1) if msg else "evaluation error"))[:300]]
                base += bad + 1
                todo = todo[bad + 1:]
                continue
        shutil.copy(os.path.join(d, "ev.ndjson"), "/tmp/last_tlc_error.ndjson")
        raise MachineryError("TLC failed on %s (rc %s):\n%s\n%s" % (module, r.returncode, r.stdout[-3000:], r.stderr[-2000:]))
    shutil.rmtree(d, ignore_errors=True)
    return verdicts, gen, dist


def judge(module, events, op="Failures", timeout=600, shards=None):
    """Evaluate operator `op` of spec module `module` on every event.
    Returns ({event index: [failed clauses]}, states generated, distinct states)."""
    events = [tla(e) for e in events]
    if not events:
        raise MachineryError("no events to judge for " + module)
    num_classes()
    k = shards or max(1, min(NCPU, len(events) // 40))
    parts = [list(range(s, len(events), k)) for s in range(k)]
    jobs = [(module, op, [events[i] for i in p], timeout) for p in parts]
    from concurrent.futures import ThreadPoolExecutor
    res, gen, dist = {}, 0, 0
    with ThreadPoolExecutor(k) as ex:
        for p, (v, g, di) in zip(parts, ex.map(_judge_shard, jobs)):
            gen += g
            dist += di
            for i, fs in v.items():
                res[p[i]] = fs
    return res, gen, dist


def model_check(module, cfg, timeout=300, workers=None, heap="6g", override=False, expect_violation=None, extra=()):
    """Exhaustive TLC run of spec/<module>.tla with config text `cfg`. Returns (generated, distinct, output)."""
    d = tempfile.mkdtemp(prefix="mc-", dir=workdir())
    _copy_spec(d)
    open(os.path.join(d, "MC.cfg"), "w").write(cfg)
    r = java(["-workers", str(workers or NCPU), "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), *extra, "-config", "MC.cfg", module + ".tla"],
             d, timeout, heap=heap, override=override, parallel=True)
    g, di = parse_stats(r.stdout)
    ok = r.returncode == 0 and "No error has been found" in r.stdout
    if expect_violation is None and not ok:
        raise MachineryError("model checking %s failed:\n%s\n%s" % (module, r.stdout[-4000:], r.stderr[-1000:]))
    if expect_violation is not None and expect_violation not in r.stdout:
        raise MachineryError("%s: expected '%s' to be violated:\n%s" % (module, expect_violation, r.stdout[-2000:]))
    shutil.rmtree(d, ignore_errors=True)
    return g, di, r.stdout


def simulate(module, cfg, num, depth, seed, timeout=300, override=False, heap="2g"):
    """Behaviours printed by the spec in simulation mode as lines @B@<json>. Returns (list, states generated)."""
    d = tempfile.mkdtemp(prefix="sim-", dir=workdir())
    _copy_spec(d)
    open(os.path.join(d, "SIM.cfg"), "w").write(cfg)
    r = java(["-workers", "1", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-simulate", "num=%d" % num, "-depth", str(depth),
              "-seed", str(seed), "-config", "SIM.cfg", module + ".tla"], d, timeout, override=override, heap=heap)
    out = []
    for line in r.stdout.splitlines():
        m = re.match(r'^"?@B@(.*?)"?$', line)
        if m:
            out.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    m = re.search(r"The number of states generated: ([\d,]+)", r.stdout)
    gen = int(m.group(1).replace(",", "")) if m else 0
    if r.returncode != 0 or not out:
        raise MachineryError("simulation of %s failed (rc %s):\n%s\n%s" % (module, r.returncode, r.stdout[-3000:], r.stderr[-1000:]))
    shutil.rmtree(d, ignore_errors=True)
    return out, gen


# ---------------------------------------------------------------- parallel runs of the real code
class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout()


def _guard(job):
    fn, arg, limit = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return ("ok", fn(arg))
    except CaseTimeout:
        return ("timeout", "no result within %d s" % limit)
    except Exception as e:          # a defect of the harness or an unexpected reaction of the real code
        return ("exc", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:]))
    finally:
        signal.alarm(0)


def pmap(fn, args, limit=120, procs=None, chunk=None):
    """fn over args in forked workers; a list of ("ok", result) | ("exc", text) | ("timeout", text)."""
    args = list(args)
    procs = procs or NCPU
    if procs == 1 or len(args) <= 1:
        return [_guard((fn, a, limit)) for a in args]
    ctx = mp.get_context("fork")
    with ctx.Pool(procs) as pool:
        return pool.map(_guard, [(fn, a, limit) for a in args], chunksize=chunk or max(1, len(args) // (procs * 4)))


def quiet():
    """Silence logging/warnings/solver output of the code under test."""
    import logging, warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


class muted:
    """Redirect fd 1/2 to /dev/null (solver banners)."""
    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush()
        self.s = [os.dup(1), os.dup(2)]
        self.n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(self.n, 1); os.dup2(self.n, 2)
    def __exit__(self, *a):
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(self.s[0], 1); os.dup2(self.s[1], 2)
        for f in self.s + [self.n]:
            os.close(f)


# ---------------------------------------------------------------- check context
class Ctx:
    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed, self.replay = prop, tier, seed, replay
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.violations = []       # dicts: clause, case, detail
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.cov, self.assumptions = [], {}, []
        self.level = "model_checking"

    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, salt))

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self):
        return (float(os.environ.get("VERIF_BUDGET", 240 if self.quick else 800))) - (time.time() - self.t0)

    def add_states(self, gen, dist):
        self.transitions += gen
        self.states += dist

    def mc(self, module, cfg, **kw):
        g, d, out = model_check(module, cfg, **kw)
        self.add_states(g, d)
        self.cov.setdefault("exhaustive_models", []).append(dict(module=module, states=d, transitions=g))
        return out

    def judge(self, module, events, cases=None, op="Failures", label=None, keep=None):
        """Judge events with TLC; report a violation per failing event. Returns failures.
        `keep` selects the clauses that speak about this property; an event all of
        whose failed clauses speak about other properties is left to their checks."""
        res, g, d = judge(module, events, op=op)
        self.add_states(g, d)
        self.traces += len(events)
        for i, fs in sorted(res.items()):
            if keep is not None:
                fs = [f for f in fs if keep(f)]
                if not fs:
                    self.cov["left to other properties"] = self.cov.get("left to other properties", 0) + 1
                    continue
            self.violation(fs, cases[i] if cases is not None else events[i], events[i], label or module)
        return res

    def violation(self, clauses, case, detail=None, label=""):
        self.violations.append(dict(label=label, clauses=list(clauses), case=case, detail=detail))

    def run(self, fn, args, limit=120, procs=None, label=None, chunk=None):
        """Run cases of the real code; a case in which the harness or the code fails unexpectedly is a violation."""
        out = []
        for a, (st, r) in zip(args, pmap(fn, args, limit, procs, chunk)):
            if st == "ok":
                out.append(r)
            else:
                out.append(None)
                self.violation(["the operation must complete: " + st + " " + str(r).strip().splitlines()[0][:200]], a, r, label or fn.__name__)
        return out

    # -- finish
    def finish(self):
        known, fixed = load_findings(self.prop)
        new, listed = [], {}
        for v in self.violations:
            k = match_finding(known, v)
            if k is None:
                new.append(v)
            else:
                listed[k["id"]] = k
        for k in known:
            if k["id"] in listed:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples[:4] or ["(none)"])
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, wall_s=round(wall, 2), violations=len(new))
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if self.replay is None:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
                json.dump(json.loads(json.dumps(ev, default=str)), f, indent=1)
        if new:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            seen = {}
            for v in new:
                seen.setdefault(json.dumps([v["label"], v["clauses"]], default=str)[:160], v)
            for v in list(seen.values())[:5]:
                body = json.dumps(dict(property=self.prop, seed=self.seed, tier=self.tier, **v), default=str, indent=1)
                path = os.path.join(rd, "%s-%s.json" % (self.prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
                open(path, "w").write(body)
                print("  %s: %s" % (v["label"], "; ".join(map(str, v["clauses"]))[:600]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("%s: %d violating observations (%d distinct) in %.1f s" % (self.prop, len(new), len(seen), wall))
            return 1
        print("%s: held on everything explored: %d spec states, %d observations of the implementation validated, %.1f s"
              % (self.prop, self.states, self.traces, wall))
        return 0


def load_findings(prop):
    known, fixed = [], []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line:
                continue
            k = json.loads(line)
            if k.get("property") != prop:
                continue
            (known if k.get("status") == "known" else fixed).append(k)
    return known, fixed


def match_finding(known, v):
    """A violation is covered by a finding when its label, every failed clause, and the case tags match."""
    for k in known:
        m = k["match"]
        if "label" in m and m["label"] != v["label"]:
            continue
        if "clauses" in m and not all(any(re.fullmatch(p, c) for p in m["clauses"]) for c in v["clauses"]):
            continue
        if "tags" in m:
            tags = set((v["case"] or {}).get("tags", [])) if isinstance(v["case"], dict) else set()
            if not set(m["tags"]) <= tags:
                continue
        return k
    return None


def cleanup():
    global _work
    if _work:
        shutil.rmtree(_work, ignore_errors=True)
        _work = None
