"""What solved networks report: outputs, capacities, injections, prices, and what they leave alone."""
import copy, math, random
import numpy as np
import pandas as pd
import vlib
from optcheck import *

WRITTEN = {"Generator": ["p"], "Link": ["p0", "p1", "p2", "p3"], "Line": ["p0", "p1"], "Transformer": ["p0", "p1"], "Load": ["p"], "Bus": ["p", "marginal_price", "v_ang"],
           "StorageUnit": ["p", "p_dispatch", "p_store", "state_of_charge", "spill"], "Store": ["p", "e"]}
FOCI = ["balance", "balance", "storage", "kvl", "loss", "glc", "glc", "cost", "invest", "uc"]


def num(v):
    v = float(v)
    return "nan" if v != v else repr(v)


def prices_differ(cs):
    """Whether the problem has integer decisions or a quadratic cost."""
    return any(a["committable"] for k in ("gens", "links") for a in cs[k]) or any(a[NOM[k] + "_extendable"] and a[NOM[k] + "_mod"] > 0 for k in NOM for a in cs[k])


def table(n, cls, attr):
    d = n.dynamic(cls)
    return d[attr] if attr in d else pd.DataFrame(index=n.snapshots)


def inputs(n):
    """All input values: static attributes and series."""
    out = {}
    for c in n.iterate_components():
        at = c.attrs
        for a in at.index[at.status.str.startswith("Input")]:
            if a in c.static and a not in ("carrier", "control"):
                out["%s %s" % (c.name, a)] = [str(x) for x in c.static[a]]
            if a in c.dynamic and len(c.dynamic[a].columns):
                out["%s_t %s" % (c.name, a)] = [str(x) for x in c.dynamic[a].to_numpy().ravel()]
    return out


def run_solve(cs, n, losses, **kw):
    with vlib.muted():
        return n.optimize(snapshots=selection(cs, n), multi_investment_periods=cs["multi"], transmission_losses=losses, solver_name="highs", log_to_console=False,
                          solver_options=dict(time_limit=15, threads=1), **kw)


def scene(job):
    seed, i = job
    r = random.Random("%s/%s" % (seed, i))
    focus = r.choice(FOCI)
    cs = random_case(r, focus)
    calibrate(r, cs)
    for k in ("gens", "links", "sus", "stores"):
        for a in cs[k]:
            a["marginal_cost_quadratic"] = 0
            a["ser"].pop("marginal_cost_quadratic", None)
    for g in cs["glcs"]:                                   # mostly satisfiable
        if g["sense"] == "<=":
            g["constant"] = max(g["constant"], 0) * r.choice([1, 1, 2])
    n = build(cs)
    sns = selection(cs, n)
    rest = n.snapshots.difference(sns, sort=False)
    h = cs["sel"][0] - 1
    again = r.random() < 0.3 and not h
    if again and r.random() < 0.5:                         # an earlier result of the whole horizon, then something new is attached
        extra = "gnew"
        if not cs["multi"]:
            run_solve(dict(cs, sel=list(range(1, cs["T"] + 1))), n, cs["losses"])
        g = gen(extra, cs["buses"][0]["id"], p_nom=3, marginal_cost=r.choice([0, 0.5, 9]))
        cs["gens"].append(g)
        n.add("Generator", extra, bus=g["bus"], p_nom=3, marginal_cost=g["marginal_cost"])
    elif r.random() < 0.6:
        for c, attrs in WRITTEN.items():
            if not len(n.static(c)):
                continue
            for a in attrs:
                if a not in n.dynamic(c) or (h and (c, a) in (("Generator", "p"), ("Link", "p0"))):
                    continue
                if c == "StorageUnit" and a == "p":
                    pass
                n.dynamic(c)[a] = pd.DataFrame([[round(r.uniform(-9, 9), 2) for _ in n.static(c).index] for _ in n.snapshots], n.snapshots, n.static(c).index)
    before = {(c, a): table(n, c, a).copy() for c, attrs in WRITTEN.items() for a in attrs}
    given = inputs(n)
    every = r.random() < 0.6
    status, cond = run_solve(cs, n, cs["losses"], assign_all_duals=every)
    if cond != "optimal":
        return None
    duals = not prices_differ(cs)
    obj = float(n.objective)
    ev = dict(cs=encode(cs), res={}, opt={}, dec={}, lost={}, other=[], duals=duals, every=every and duals, obj=obj, scale=max(1.0, abs(obj)), probes=[], limits=[],
              angles=not cs["multi"] and not cs["losses"] and (len(n.sub_networks) > 0 and "obj" in n.sub_networks))
    for c, attrs in list(WRITTEN.items()) + [("Generator ", ["mu_upper", "mu_lower"])]:
        c = c.strip()
        if not len(n.static(c)):
            continue
        for a in attrs:
            if c == "Link" and a[1:] not in n.components["Link"].ports or (a in ("marginal_price",) and not duals):
                continue
            d = table(n, c, a)
            ev["res"].setdefault(c, {})[a] = {str(x): [num(d.at[t, x]) if x in d.columns else "nan" for t in sns] for x in n.static(c).index}
    for key, nom in NOM.items():
        cls = CLS[key]
        ev["opt"][cls] = {x: num(v) for x, v in n.static(cls)[nom + "_opt"].items()}
        ev["dec"][cls] = {}
        if "%s-%s" % (cls, nom) in n.model.variables:
            ev["dec"][cls] = {x: num(v) for x, v in n.model["%s-%s" % (cls, nom)].solution.to_pandas().items()}
    for cls in ("Line", "Transformer"):
        ev["lost"][cls] = {}
        if cls + "-loss" in n.model.variables:
            ev["lost"][cls] = {x: [num(0 if v != v else v) for v in s] for x, s in n.model[cls + "-loss"].solution.transpose("snapshot", ...).to_pandas().items()}
    for (c, a), d in before.items():
        now = table(n, c, a)
        for x in d.columns:
            ev["other"].append(dict(what="%s %s" % (c, a), before=[num(v) for v in d.loc[rest, x]], after=[num(v) for v in now[x].reindex(rest)] if x in now else []))
        if a != "marginal_price" or duals:
            for x in now.columns.difference(d.columns):
                ev["other"].append(dict(what="%s %s (new)" % (c, a), before=[num(0 if v == v else 1) for v in now.loc[rest, x]], after=["0.0"] * len(rest)))
    left = inputs(n)
    changed = [k for k in given if left.get(k) != given[k]]
    for k in changed:
        ev["other"].append(dict(what="input " + k, before=["0"], after=[]))
    kinds = []
    if duals:
        for _ in range(3):
            b, k = r.choice(cs["buses"])["id"], r.randrange(len(sns))
            for d in r.choice([(0.05, -0.05), (0.5, -0.5)]):
                n2 = build(cs)
                n2.add("Load", "probe", bus=b, p_set=pd.Series([d if t == k + cs["sel"][0] - 1 else 0.0 for t in range(cs["T"])], n2.snapshots))
                st, cd = run_solve(cs, n2, cs["losses"])
                ev["probes"].append(dict(bus=b, k=k + 1, d=num(d), known=cd == "optimal", obj=num(n2.objective if cd == "optimal" else 0)))
        for g in cs["glcs"]:
            mu = n.global_constraints.mu.get(g["id"], math.nan) if "mu" in n.global_constraints else math.nan
            exists = "GlobalConstraint-" + g["id"] in n.model.constraints and bool((n.model.constraints["GlobalConstraint-" + g["id"]].coeffs.fillna(0) != 0).any())
            for d in (0.05, -0.05):
                cs2 = copy.deepcopy(cs)
                [q for q in cs2["glcs"] if q["id"] == g["id"]][0]["constant"] += d
                n2 = build(cs2)
                st, cd = run_solve(cs2, n2, cs["losses"])
                ev["limits"].append(dict(id=g["id"], exists=exists, mu=num(mu), d=num(d), known=cd == "optimal", obj=num(n2.objective if cd == "optimal" else 0)))
    return ev, dict(focus=focus, case=brief(cs), solved_before=again)


def run(ctx):
    def part(k):
        got = [x for x in ctx.run(scene, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(110, 300))], label="solved network") if x]
        ctx.judge("Solution", [g[0] for g in got], op="SolutionSays", cases=[g[1] for g in got], label="solved network")
        for g, _ in got:
            for key, v in (("solved networks", 1), ("with shadow prices", g["duals"]), ("extra loads", len(g["probes"])), ("changed limits", len(g["limits"]))):
                ctx.cov[key] = ctx.cov.get(key, 0) + int(v)
        ctx.samples[:] = [dict(case=got[0][1], opt=got[0][0]["opt"])]
    rounds(ctx, [part])
    ctx.assumptions += ["the solver returns optimal values and duals within its tolerances",
                        "cost is convex in load and limits, so a price must support the cost at every other load (checked at two to six loads per case)"]
