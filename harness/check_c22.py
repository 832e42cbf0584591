"""Security-constrained dispatch: decisions and solutions of random meshed networks under branch outages."""
import random
import numpy as np
import vlib, optcheck
from optlib import *
from gencases import random_case, calibrate

BR = (("Line", "lines"), ("Transformer", "trafos"))


def alive(cs, k):
    return [(c, b, key) for c, key in BR for b in cs[key] if on(cs, b, k)]


def parts(cs, brs):
    root = {b["id"]: b["id"] for b in cs["buses"]}

    def find(z):
        while root[z] != z:
            z = root[z]
        return z
    for _, b, _ in brs:
        root[find(b["bus0"])] = find(b["bus1"])
    return {z: find(z) for z in root}


def bridge(cs, o, k):
    act = alive(cs, k)
    me = [b for c, b, _ in act if (c, b["id"]) == o]
    if not me:
        return False
    p = parts(cs, [z for z in act if (z[0], z[1]["id"]) != o])
    return p[me[0]["bus0"]] != p[me[0]["bus1"]]


class After:
    """Flows after an outage (a witness; the specification verifies it)."""

    def __init__(self, cs):
        self.cs, self.S, self.memo = cs, Sampler(cs, random.Random(0)), {}

    def matrix(self, o, k):
        act = alive(self.cs, k)
        rest = [z for z in act if (z[0], z[1]["id"]) != o]
        ix = {b["id"]: i for i, b in enumerate(self.cs["buses"])}
        Kf = np.zeros((len(ix), len(act)))
        for j, (_, b, _) in enumerate(act):
            Kf[ix[b["bus0"]], j] += 1
            Kf[ix[b["bus1"]], j] -= 1
        Kr = Kf[:, [j for j, z in enumerate(act) if z in rest]]
        Y = np.diag([1 / self.S.weight(c, b) for c, b, _ in rest]) if rest else np.zeros((0, 0))
        return act, rest, (Y @ Kr.T @ np.linalg.pinv(Kr @ Y @ Kr.T) @ Kf if rest else np.zeros((0, len(act))))

    def flows(self, x, o, k):
        key = (o, tuple(sorted((c, b["id"]) for c, b, _ in alive(self.cs, k))))
        if key not in self.memo:
            self.memo[key] = self.matrix(o, k)
        act, rest, M = self.memo[key]
        f = M @ np.array([x["flow"][c][b["id"]][k] for c, b, _ in act])
        out = {"Line": {}, "Transformer": {}}
        for (c, b, _), v in zip(rest, f):
            out[c][b["id"]] = float(v)
        return out

    def all(self, x, outages):
        return [[self.flows(x, o, k) for k in range(len(self.cs["sel"]))] for o in outages]


def enc(after):
    return [[{c: {i: qs(v) for i, v in d.items()} for c, d in w.items()} for w in ks] for ks in after]


def squeeze(r, cs, x, outages, A_):
    """Scale the flows of a step such that the worst outage is just, or just not, survived."""
    S = Sampler(cs, r, bad=0)
    for k in range(len(cs["sel"])):
        if r.random() < 0.25:
            continue
        t, worst = cs["sel"][k] - 1, 0
        for o in outages:
            w = A_.flows(x, o, k)
            for c, b, key in alive(cs, k):
                f = abs(w[c].get(b["id"], 0))
                cap = A(b, "s_max_pu", t) * (x["cap"][c][b["id"]] if b["s_nom_extendable"] else b["s_nom"])
                if f > 1e-9:
                    worst = max(worst, f / cap if cap > 0 else INF)
        if worst > 0:
            s = 0 if worst == INF else r.choice([1, 1, 0.9, 1, 1.05, 1.2]) / worst
            for c, b, key in alive(cs, k):
                x["flow"][c][b["id"]][k] *= s
    S.balance(x)
    return x


def listed(r, cs, outages, free):
    """The outages as an argument, and those it stands for."""
    if free and r.random() < 0.5:
        return None, outages
    k = r.random()
    some = r.sample(outages, r.randint(1, len(outages)))
    lines = [o for o in some if o[0] == "Line"]
    if lines and k < 0.5:
        names = [o[1] for o in lines]
        return (names if k < 0.25 else pd.Index(names)), lines
    return pd.MultiIndex.from_tuples(some), some


def case_of(r):
    cs = random_case(r, "kvl")
    for _, key in BR:
        for b in cs[key]:
            if r.random() < 0.6:
                b["build_year"], b["lifetime"] = 0, INF
    K = range(len(cs["sel"]))
    brs = [(c, b["id"]) for c, key in BR for b in cs[key] if b["active"]]
    usable = [o for o in brs if any(on(cs, b, k) for c, key in BR for b in cs[key] if (c, b["id"]) == o for k in K)]
    return cs, [o for o in usable if not any(bridge(cs, o, k) for k in K)], brs


def event(job):
    seed, i, m, solve = job
    r = random.Random("%s/%s" % (seed, i))
    for _ in range(20):
        cs, outages, brs = case_of(r)
        if outages:
            break
    else:
        return None
    pre = calibrate(r, cs)
    arg, asked = listed(r, cs, outages, len(outages) == len(brs))
    n = build(cs)
    A_ = After(cs)
    case = dict(case=optcheck.brief(cs), outages=asked, argument=str(arg))
    from pypsa.optimization.optimize import OptimizationAccessor
    keep = OptimizationAccessor.solve_model
    kw = dict(solver_name="highs", log_to_console=False, solver_options=dict(time_limit=15, threads=1))
    try:
        if not solve:
            OptimizationAccessor.solve_model = lambda self, **kw: ("ok", "optimal")
        with vlib.muted():
            status, cond = n.optimize.optimize_security_constrained(selection(cs, n), branch_outages=arg, multi_investment_periods=cs["multi"], **kw)
    except Exception as x:
        return dict(out="refused"), dict(case, error="%s: %s" % (type(x).__name__, str(x)[:300]))
    finally:
        OptimizationAccessor.solve_model = keep
    xs = []
    for j in range(m):
        x = Sampler(cs, r, bad=0 if j % 3 or solve else 0.08).sample()
        xs.append(squeeze(r, cs, x, asked, A_) if r.random() < 0.8 else x)
    ev, rm = observe(cs, xs, rm=RealModel(cs, n, ready=True))
    if solve:
        ev.update(status=status, cond=cond, solved=cond == "optimal")
        if ev["solved"]:
            ev["x"], ev["obj"] = optcheck.solution_of(cs, n), float(n.objective)
            ev["after"] = enc(A_.all(ev["x"], asked))
            ev["scale"] = max(1.0, abs(ev["obj"]))
    else:
        for x in optcheck.vertices(rm, r, 4):
            adm, why, obj, scale = rm.admits(x, tol=1e-5)
            ev["cands"].append(dict(x=x, adm=adm, why=why or "-", obj=obj, scale=scale, priced=adm, vertex=True))
    for c in ev["cands"]:
        c["after"] = enc(A_.all(c["x"], asked))
    return dict(ev, out="ok", outages=[list(o) for o in asked]), case


def concerns(cl):
    return "harness" in cl or "outage" in cl or "refused" in cl or "security" in cl or "cheaper" in cl or "infeasible although" in cl


def run(ctx):
    def models(k):
        got = [x for x in ctx.run(event, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i, 10, False) for i in range(ctx.n(110, 600))], limit=200, label="security-constrained model") if x]
        ctx.judge("Security", [g[0] for g in got], op="SecurityFails", cases=[g[1] for g in got], label="security-constrained model", keep=concerns)
        cov(got)
        if not ctx.samples:
            ctx.samples.append(dict(case=got[0][1], decision=got[0][0].get("cands", [None])[0]))

    def solutions(k):
        got = [x for x in ctx.run(event, [("%s/%d/%d/s" % (ctx.prop, ctx.seed, k), i, 5, True) for i in range(ctx.n(45, 300))], limit=200, label="security-constrained solution") if x]
        ctx.judge("Security", [g[0] for g in got], op="SecureSolutionFails", cases=[g[1] for g in got], label="security-constrained solution", keep=concerns)
        cov(got)

    def cov(got):
        c = ctx.cov.setdefault("decisions", optcheck.collections.Counter())
        for e, _ in got:
            ctx.cov["outages listed"] = ctx.cov.get("outages listed", 0) + len(e.get("outages", []))
            for z in e.get("cands", []):
                c["vertex of the implementation's model" if z.get("vertex") else "admitted" if z["adm"] else "excluded by security" if "security" in z["why"] else "excluded otherwise"] += 1
    optcheck.rounds(ctx, [models, solutions])
