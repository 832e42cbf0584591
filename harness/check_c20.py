"""Rolling-horizon optimisation: every window continues what the previous ones left, and the whole obeys the rules."""
import copy, math, random, types
import numpy as np
import pandas as pd
import vlib
from optcheck import *
from gencases import add_stores, add_sus, history


def rolling_case(r):
    gaps = r.random() < 0.25
    while True:
        cs = random_case(r, "storage:long" if gaps else r.choice(["uc", "uc", "ramp", "storage", "storage"]))
        if cs["multi"] or cs["T"] < 3:
            continue
        if cs["T"] == 3 and r.random() < 0.7:
            continue
        if r.random() < 0.4:
            (add_sus if r.random() < 0.5 else add_stores)(r, dict(cs, sus=cs["sus"] if not cs["sus"] else [], stores=cs["stores"] if not cs["stores"] else []), 1, "storage", ["wind"])
        break
    for key, nom in NOM.items():
        for a in cs[key]:
            a[nom + "_extendable"] = False
            a["marginal_cost_quadratic"] = 0
            a["ser"].pop("marginal_cost_quadratic", None)
    for a in cs["gens"]:
        a["e_sum_min"], a["e_sum_max"] = -INF, INF
    for a in cs["sus"]:
        a["cyclic_state_of_charge"] = False
        if r.random() < 0.7:
            a["ser"].pop("state_of_charge_set", None)
        a["state_of_charge_initial"] = min(a["state_of_charge_initial"], a["max_hours"] * a["p_nom"])
    for a in cs["stores"]:
        a["e_cyclic"] = False
    if not any(a["committable"] or any(k in a["ser"] or a[k] == a[k] for k in ("ramp_limit_up", "ramp_limit_down")) for k in ("gens", "links") for a in cs[k]) \
            and cs["T"] > 3 and gaps:
        for a in cs["stores"] + cs["sus"]:          # levels that outlast the windows
            a["marginal_cost"] = 3
            if r.random() < 0.7:
                a["standing_loss"] = 0
                a["ser"].pop("standing_loss", None)
            if "max_hours" in a:
                a["state_of_charge_initial"] = a["max_hours"] * a["p_nom"]
            else:
                a["e_initial"] = a["e_nom"]
        cs["sel"] = sorted(r.sample(range(1, cs["T"] + 1), r.randint(3, cs["T"] - 1)))      # with gaps: only levels connect the windows
        for a in cs["gens"] + cs["links"]:
            history(r, cs, a)
    return cs


class View:
    """The tables of a network at one moment."""
    def __init__(self, n):
        self.snapshots = n.snapshots
        self.tables = {c: {k: v.copy() for k, v in n.dynamic(c).items()} for c in ("Generator", "Link", "StorageUnit", "Store", "Line", "Transformer")}
        self.objective, self.constant = getattr(n, "objective", math.nan), getattr(n, "objective_constant", 0)

    def dynamic(self, c):
        return self.tables[c]


def at(view, cls, attr, i, k):
    d = view.tables[cls][attr]
    return float(d.iloc[k][i]) if i in d.columns else 0.0


def window_case(cs, pos, view, first):
    """The case of one window, starting from what the tables say about the snapshot before it."""
    w = copy.deepcopy(cs)
    w["sel"] = list(pos)
    if first:
        return w
    h = cs["sel"][cs["sel"].index(pos[0]) - 1]          # the selected snapshot before
    for key, cls, p in (("gens", "Generator", "p"), ("links", "Link", "p0")):
        for a in w[key]:
            a["hist_p"] = at(view, cls, p, a["id"], h - 1)
            if a["committable"]:
                old = cs["sel"][0] - 1
                given = [a0 for a0 in cs[key] if a0["id"] == a["id"]][0].get("hist_status", [])
                a["hist_status"] = [given[k] if k < old else round(at(view, cls, "status", a["id"], k)) for k in range(h)]
    for a in w["sus"]:
        a["state_of_charge_initial"] = at(view, "StorageUnit", "state_of_charge", a["id"], h - 1)
    for a in w["stores"]:
        a["e_initial"] = at(view, "Store", "e", a["id"], h - 1)
    return w


def scene(job):
    seed, i = job
    r = random.Random("%s/%s" % (seed, i))
    cs = rolling_case(r)
    n = build(cs)
    sns = selection(cs, n)
    N = len(sns)
    horizon, overlap = r.randint(1, N + 1), 0
    overlap = r.choice([0, 0, 1, 1, 2, r.randint(0, N)])
    if overlap >= horizon and r.random() < 0.9:
        overlap = r.randint(0, horizon - 1)
    seen = []

    cands = []

    def note(m, s):
        """A window is about to be solved: what its model says about some decisions."""
        pos, view = [int(k) + 1 for k in m.snapshots.get_indexer(s)], View(m)
        w = window_case(cs, pos, view, not seen)
        seen.append((pos, view))
        if len(seen) <= 5:
            e, rm = observe(w, [Sampler(w, r, bad=0 if j < 3 else 0.08).sample() for j in range(5)], rm=RealModel(w, m, ready=True), tol=5e-6)
            cands.append(e["cands"])
        else:
            cands.append([])
    kw = dict(snapshots=sns) if cs["sel"] != list(range(1, cs["T"] + 1)) or r.random() < 0.3 else {}
    if kw and r.random() < 0.3:
        kw["snapshots"] = list(sns)
    out = "ok"
    with vlib.muted():
        try:
            n.optimize.optimize_with_rolling_horizon(horizon=horizon, overlap=overlap, extra_functionality=note, solver_name="highs", log_to_console=False,
                                                     transmission_losses=cs["losses"], solver_options=dict(time_limit=15, threads=1), **kw)
        except ValueError as x:
            out = "refused" if horizon <= overlap else "ValueError: " + str(x)[:150]
    ev = dict(n=N, horizon=horizon, overlap=overlap, out=out, windows=[[cs["sel"].index(k) + 1 for k in s] for s, _ in seen], wins=[], missing=[], whole=False)
    views = [v for _, v in seen[1:]] + [View(n)]
    solved = []
    for k, (s, before) in enumerate(seen):
        after = views[k]
        w = window_case(cs, s, before, k == 0)
        ok = after.objective == after.objective and not (k and after.objective is before.objective)
        x = solution_of(w, after)
        flat = [v for sec in ("gp", "lp", "sp", "se", "soc", "ud", "us") for z in x[sec].values() for v in z]
        good = all(math.isfinite(v) for v in flat) and ok
        solved.append(good)
        obj = float(after.objective) if good else 0.0
        e = dict(cs=encode(w), cands=cands[k], solved=good, cond="unknown", obj=obj, scale=max(1.0, abs(obj)), const2=float(after.constant))
        if good:
            e["x"] = x
        ev["wins"].append(e)
        if not good:
            break
    ev["whole"] = bool(seen) and all(solved) and len(solved) == len(seen)
    if ev["whole"]:
        ev["cs"], ev["x"] = encode(cs), solution_of(cs, n)
        for c, attrs in (("Generator", ["p"]), ("Link", ["p0", "p1"]), ("StorageUnit", ["p", "state_of_charge"]), ("Store", ["p", "e"]), ("Line", ["p0", "p1"]), ("Transformer", ["p0"]), ("Bus", ["p", "marginal_price"])):
            for a in attrs:
                d = n.dynamic(c)[a]
                miss = [str(x) for x in n.static(c).index if x not in d.columns or d.loc[sns, x].isna().any()] if a != "marginal_price" else \
                       [str(x) for x in d.columns if d.loc[sns, x].isna().any()]
                ev["missing"] += ["%s %s %s" % (c, a, x) for x in miss]
    return ev, dict(case=brief(cs), horizon=horizon, overlap=overlap, sel=cs["sel"])


def run(ctx):
    ctx.mc("RollingDesign", "SPECIFICATION Spec\nCONSTANTS MaxN=%d Variant=\"right\"\nINVARIANTS Order Rules Complete Shape\nCHECK_DEADLOCK FALSE\n" % ctx.n(4, 5))

    def part(k):
        got = [x for x in ctx.run(scene, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(90, 200))], label="rolling horizon") if x]
        ctx.judge("Rolling", [g[0] for g in got], op="RollingFails", cases=[g[1] for g in got], label="rolling horizon")
        for g, _ in got:
            ctx.cov["windows"] = ctx.cov.get("windows", 0) + len(g["windows"])
            for key, v in (("runs solved throughout", g["whole"]), ("runs with overlap", g["overlap"] > 0), ("refused", g["out"] == "refused")):
                ctx.cov[key] = ctx.cov.get(key, 0) + bool(v)
        ctx.samples[:] = [dict(case=got[0][1], windows=got[0][0]["windows"])]
    rounds(ctx, [part])
    ctx.assumptions += ["every window is observed through the extra_functionality callback, results through the network's tables",
                        "storage which is cyclic, budgets over the horizon and capacities to be optimised are not part of the cases: they are defined over a whole optimisation"]
