"""Shared by the checks of the optimisation properties: observations of models
and solved networks, judged by spec/Dispatch.tla."""
import collections, random, re, time
import numpy as np
import vlib
from optlib import *
from gencases import random_case, calibrate

VERTEX_BOX = 5e3


def brief(cs):
    """The non-default part of a case (for replay files)."""
    defs = {"gens": gen("", ""), "loads": load("", ""), "sus": su("", ""), "stores": store("", ""), "links": link("", "", []),
            "lines": line("", "", ""), "trafos": trafo("", "", ""), "buses": bus(""), "carriers": carrier("")}
    out = {k: v for k, v in cs.items() if k not in defs}
    for key, d in defs.items():
        out[key] = [{k: v for k, v in a.items() if k not in d or (d[k] != v and not (d[k] != d[k] and v != v))} for a in cs[key]]
    return out


def vertices(rm, r, k):
    """Extreme points of the real model in random directions."""
    out = []
    labels = sorted(rm.map.items(), key=str)
    lab = [l for _, l in labels if l in rm.pos]
    if not lab:
        return out
    iv = np.isin(rm.vt, ["B", "I"])
    for _ in range(k):
        c = np.zeros(len(rm.pos))
        for l in r.sample(lab, min(len(lab), r.choice([1, 1, 2, 4, 8]))):
            c[rm.pos[l]] = r.choice([-1, -1, 1, 1, -0.5, 2])
        v = rm.vertex(c)
        if v is None:
            break
        v = np.where(iv, np.round(v), v)
        if np.abs(v).max(initial=0) > VERTEX_BOX * 0.99:
            continue
        out.append(rm.candidate(v))
    return out


# which property a clause of the specification, or a constraint of the implementation, belongs to
CLAUSES = [
    ("C15", "KVL"), ("C16", "loss"), ("C14", "ramps (up|down)"), ("C17", "constraint violated|growth limit|nom_min|nom_max|capacity at a bus"),
    ("C13", "commitment of|status is neither|a start is not|a stop is not|minimum (up|down) time"),
    ("C12", "^storage|state of charge|^store |spillage"),
    ("C11 C19", "out of service"), ("C19", "capacity (below|above|differs|is not)"), ("C11 C16", "not balanced"),
    ("C11 C15 C16 C19", "branch flow outside"), ("C11 C13 C19", "output (below|above)"), ("C11", "output differs|energy (below|above)"),
    ("C18", "objective"),
]
NAMES = [
    ("C15", "Kirchhoff"), ("C16", "-loss"), ("C14", "ramp_limit"), ("C17", "GlobalConstraint|growth_limit|Bus-nom_"),
    ("C13", "(up|down)-time|-status|start_up|shut_down|transition|up_time|down_time"), ("C12", "energy_balance|state_of_charge|spill|Store-.*-e-|Store-.*-e$|p_store|p_dispatch"),
    ("C11 C16", "nodal_balance"), ("C19", "(p|s|e)_nom|modularity|n_mod|integrality"), ("C11 C15 C16 C19", "(Line|Transformer)-(fix|ext)-s-"),
    ("C11 C12 C13 C19", "-(fix|ext|com|mod)-"), ("C11", "p_set|e_sum|sum_"),
]


def concerns(prop, clause):
    """Whether a failed clause speaks about this property (unknown clauses speak about all)."""
    m = re.search(r"a feasible decision is excluded \(by (.*)\)", clause)
    text, table = (m.group(1), NAMES) if m else (clause.split("|", 1)[-1].replace("admitted although: ", "").replace("solution: ", ""), CLAUSES)
    for props, pat in table:
        if re.search(pat, text):
            return prop in props.split()
    return True


def observe_focus(job):
    """One random case: candidates and extreme points with the real model's verdict."""
    seed, focus, i, m, nv = job
    r = random.Random("%s/%s/%d" % (seed, focus, i))
    cs = random_case(r, focus)
    pre = calibrate(r, cs)
    xs = pre + [Sampler(cs, r, bad=0 if j < m // 3 else 0.08).sample() for j in range(m - len(pre))]
    ev, rm = observe(cs, xs)
    for x in vertices(rm, r, nv):
        adm, why, obj, scale = rm.admits(x, tol=1e-5)
        ev["cands"].append(dict(x=x, adm=adm, why=why or "-", obj=obj, scale=scale, priced=adm, vertex=True))
    return ev, cs


def judge_models(ctx, focus, cases, m, nv=3, label=None, salt=0, extra=()):
    jobs = [("%s/%d/%d" % (ctx.prop, ctx.seed, salt), f, i, m, nv) for f, k in [(focus, cases), *extra] for i in range(k)]
    got = [x for x in ctx.run(observe_focus, jobs, limit=200, label=label or "model of a random %s case" % focus) if x is not None]
    return judge_events(ctx, [g[0] for g in got], [brief(g[1]) for g in got], label or "model:" + focus)


def judge_events(ctx, evs, cases, label, op="Failures"):
    if not evs:
        return {}
    res = ctx.judge("Dispatch", evs, cases=cases, label=label, op=op, keep=lambda cl: concerns(ctx.prop, cl))
    c = ctx.cov.setdefault("decisions", collections.Counter())
    for e in evs:
        for z in e["cands"]:
            c["vertex of the implementation's model" if z.get("vertex") else "admitted (feasible)" if z["adm"] else "excluded (infeasible)"] += 1
            if not z["adm"]:
                h = ctx.cov.setdefault("exclusions by", collections.Counter())
                h[z["why"].split("[")[0][:60]] += 1
    c["cases"] += len(evs)
    if len(ctx.samples) < 3 and evs:
        ctx.samples.append(dict(label=label, case=cases[0], decision=evs[0]["cands"][0] if evs[0]["cands"] else None))
    return res


# ------------------------------------------------------------------ solved networks
def solution_of(cs, n):
    """The decision reported by a solved network, in terms of the specification."""
    sns = selection(cs, n)
    x = blank(cs)

    def series(cls, attr, i):
        d = n.dynamic(cls)[attr]
        if i in d.columns:
            return [float(v) for v in d.loc[sns, i]]
        return [0.0] * len(sns)
    for key, cls, st, p, su_, sd in (("gens", "Generator", "gst", "gp", "gsu", "gsd"), ("links", "Link", "lst", "lp", "lsu", "lsd")):
        for a in cs[key]:
            x[p][a["id"]] = series(cls, "p" if cls == "Generator" else "p0", a["id"])
            if a["committable"]:
                x[st][a["id"]] = series(cls, "status", a["id"])
                x[su_][a["id"]] = series(cls, "start_up", a["id"])
                x[sd][a["id"]] = series(cls, "shut_down", a["id"])
    for a in cs["sus"]:
        i = a["id"]
        x["ud"][i], x["us"][i] = series("StorageUnit", "p_dispatch", i), series("StorageUnit", "p_store", i)
        x["soc"][i], x["spill"][i] = series("StorageUnit", "state_of_charge", i), series("StorageUnit", "spill", i)
    for a in cs["stores"]:
        x["sp"][a["id"]], x["se"][a["id"]] = series("Store", "p", a["id"]), series("Store", "e", a["id"])
    for key, cls in (("lines", "Line"), ("trafos", "Transformer")):
        for a in cs[key]:
            p0, p1 = np.array(series(cls, "p0", a["id"])), np.array(series(cls, "p1", a["id"]))
            x["flow"][cls][a["id"]] = list((p0 - p1) / 2)
            if cs["losses"]:
                x["loss"][cls][a["id"]] = list(p0 + p1)
    for key, nom in NOM.items():
        for a in cs[key]:
            if a[nom + "_extendable"]:
                v = float(n.static(CLS[key]).at[a["id"], nom + "_opt"])
                x["cap"][CLS[key]][a["id"]] = v
                if a[nom + "_mod"] > 0:
                    x["nmod"][CLS[key]][a["id"]] = v / a[nom + "_mod"]
    return x


def solve(cs, n=None, solver="highs", **kw):
    n = n if n is not None else build(cs)
    with vlib.muted():
        status, cond = n.optimize(snapshots=selection(cs, n), multi_investment_periods=cs["multi"], transmission_losses=cs["losses"], solver_name=solver, log_to_console=False, solver_options=dict(time_limit=15, threads=1), **kw)
    return n, status, cond


def observe_solution(job):
    """One random case solved by the real optimiser, with competing decisions."""
    seed, focus, i, m = job
    r = random.Random("%s/%s/sol/%d" % (seed, focus, i))
    cs = random_case(r, focus)
    pre = calibrate(r, cs)
    if any(g.get("marginal_cost_quadratic") or "marginal_cost_quadratic" in g["ser"] for k in ("gens", "links", "sus", "stores") for g in cs[k]):
        if r.random() < 0.7 or any(a["committable"] for k in ("gens", "links") for a in cs[k]) or any(a[NOM[k] + "_mod"] > 0 for k in NOM for a in cs[k]):
            for k in ("gens", "links", "sus", "stores"):          # the solver takes no mixed-integer quadratic problems
                for a in cs[k]:
                    a["marginal_cost_quadratic"] = 0
                    a["ser"].pop("marginal_cost_quadratic", None)
    xs = pre + [Sampler(cs, r, bad=0).sample() for j in range(m - len(pre))]
    ev, rm = observe(cs, xs)
    n, status, cond = solve(cs)
    ev["status"], ev["cond"] = status, cond
    ev["solved"] = cond == "optimal"
    if ev["solved"]:
        ev["x"] = solution_of(cs, n)
        ev["obj"] = float(n.objective)
        ev["scale"] = max(1.0, abs(ev["obj"]))
        ev["const2"] = float(n.objective_constant)
    return ev, cs


def judge_solutions(ctx, focus, cases, m, salt=0, extra=()):
    jobs = [("%s/%d/%d" % (ctx.prop, ctx.seed, salt), f, i, m) for f, k in [(focus, cases), *extra] for i in range(k)]
    got = [x for x in ctx.run(observe_solution, jobs, limit=200, label="solution of a random %s case" % focus) if x is not None]
    if not got:
        return
    evs, cases_ = [g[0] for g in got], [brief(g[1]) for g in got]
    h = ctx.cov.setdefault("solver conditions", collections.Counter())
    for e in evs:
        h[e["cond"]] += 1
    return ctx.judge("Dispatch", evs, cases=cases_, label="solution:" + focus, op="SolutionFailures", keep=lambda cl: concerns(ctx.prop, cl))


def rounds(ctx, plan):
    """Run the thunks (of a round number) once, and in the thorough tier again while time is left."""
    k, took = 0, 0
    while k == 0 or (not ctx.quick and ctx.left() > 1.2 * took and not ctx.violations):
        t = time.time()
        for f in plan:
            f(k)
        took = time.time() - t
        k += 1
    ctx.cov["rounds"] = k


def standard(ctx, focus, models=130, sols=64, m=12, kinds=()):
    """Membership of sampled decisions and extreme points, then solved networks.
    `kinds` names variants of the focus that are drawn in addition."""
    more = lambda k: [("%s:%s" % (focus, x), k) for x in kinds]
    rounds(ctx, [lambda k: judge_models(ctx, focus, models, m, 3, salt=k, extra=more(50)),
                 lambda k: judge_solutions(ctx, focus, sols, 6, salt=k, extra=more(20))])
    ctx.assumptions += ["TLC and the arithmetic override spec/java/Num.java are correct",
                        "the solver (HiGHS) returns an optimum of the model it is given (relative tolerance 1e-3)"]
