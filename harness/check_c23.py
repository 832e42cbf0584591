"""What is done with an optimised network afterwards: near-optimal alternatives, expansion in iterations, fixing, shedding."""
import itertools, math, random
import numpy as np
import pandas as pd
import vlib, netobs, optcheck
import pfcases as pc
from optlib import *
from gencases import random_case, calibrate

KW = dict(solver_name="highs", log_to_console=False, solver_options=dict(time_limit=15, threads=1))


def plain(cs):
    """No quadratic costs, all snapshots."""
    cs["sel"] = list(range(1, cs["T"] + 1))
    for k in ("gens", "links", "sus", "stores"):
        for a in cs[k]:
            a["marginal_cost_quadratic"] = 0
            a["ser"].pop("marginal_cost_quadratic", None)
    return cs


def any_case(r):
    while True:
        cs = random_case(r, r.choice(["cost", "invest", "balance", "glc"]))
        if cs["sel"] == list(range(1, cs["T"] + 1)):
            return plain(cs)


# ------------------------------------------------------------------ alternatives
SECS = [("Generator", "p", "gens", "gp"), ("Link", "p", "links", "lp"), ("Store", "e", "stores", "se"), ("Store", "p", "stores", "sp"),
        ("StorageUnit", "p_dispatch", "sus", "ud"), ("StorageUnit", "p_store", "sus", "us"), ("StorageUnit", "state_of_charge", "sus", "soc")]


def weights_of(r, cs, n):
    """Weights as an argument, and what they mean."""
    K, w, mean = len(cs["sel"]), {}, []
    noms = [(CLS[k], NOM[k], k, "cap") for k in NOM if any(a[NOM[k] + "_extendable"] for a in cs[k])]
    ext_gens = any(a["p_nom_extendable"] for a in cs["gens"])
    if ext_gens and r.random() < 0.25:
        return None, [dict(sec="cap", cls="Generator", id=a["id"], coef=["1"]) for a in cs["gens"] if a["p_nom_extendable"]]
    pool = noms * 2 + [s for s in SECS if cs[s[2]]]
    for cls, attr, key, sec in r.sample(pool, min(len(pool), r.choice([1, 1, 2, 3]))):
        ids = [a["id"] for a in cs[key] if sec != "cap" or a[attr + "_extendable"]]
        if attr in w.get(cls, {}):
            continue
        kind = r.choice(["float", "dict", "series", "frame", "dict", "series"])
        val = lambda: r.choice([1, 2, 0.5, -1, 3])
        if kind == "float":
            v = val()
            co = {i: [v] * K for i in ids}
            w.setdefault(cls, {})[attr] = v
        elif kind == "frame" and sec != "cap":
            some = ids if r.random() < 0.6 else r.sample(ids, r.randint(1, len(ids)))
            co = {i: [val() for _ in range(K)] for i in some}
            w.setdefault(cls, {})[attr] = pd.DataFrame({i: [float(v) for v in co[i]] for i in some}, index=n.snapshots)
        else:
            some = ids if r.random() < 0.5 else r.sample(ids, r.randint(1, len(ids)))
            d = {i: val() for i in some}
            if sec == "cap" and r.random() < 0.3:            # an asset whose capacity is given has no weight
                d.update({a["id"]: 1 for a in cs[key] if not a[attr + "_extendable"]})
            co = {i: [d[i]] * K for i in some}
            w.setdefault(cls, {})[attr] = d if kind == "dict" else pd.Series(d)
        mean += [dict(sec=sec, cls=cls, id=i, coef=[qs(v) for v in (c[:1] if sec == "cap" else c)]) for i, c in co.items()]
    return w, mean


def alternative(job):
    from pypsa.optimization.optimize import OptimizationAccessor
    seed, i, m, solve = job
    r = random.Random("%s/%s" % (seed, i))
    cs = any_case(r)
    for a in cs["gens"]:          # given capacity has a cost, too, and makes the total cost positive
        if a["id"].startswith("slack") and not a["p_nom_extendable"] and r.random() < 0.7:
            a["capital_cost"] = 1
    pre = calibrate(r, cs)
    n, status, cond = optcheck.solve(cs)
    if cond != "optimal":
        return None
    best = optcheck.solution_of(cs, n)
    rm0 = RealModel(cs, n, ready=True)
    xs = pre + [Sampler(cs, r, bad=0 if j % 3 else 0.08).sample() for j in range(m - len(pre))]
    gain = []
    for x in xs:
        adm, why, obj, scale = rm0.admits(x)
        if adm:
            gain.append(obj - n.objective)
    with vlib.muted():
        given = n.statistics.installed_capex()
        total = float(n.objective) + (float((given.sum() * n.investment_period_weightings.objective).sum()) if cs["multi"] else float(given.sum() if given.ndim == 1 else given.sum().iloc[0]))
    if total <= 0.5:
        return None
    slack = 0.05 if not gain or r.random() < 0.2 else max(0, r.choice(gain) / total) * r.choice([0.98, 1.02]) + r.choice([0, 0.001])
    w, mean = weights_of(r, cs, n)
    sense, sgn = r.choice([("min", 1), ("max", -1), (1, 1), (-1, -1), ("minimize", 1), ("maximise", -1)])
    case = dict(case=optcheck.brief(cs), slack=slack, sense=sense, weights=str(w))
    keep = OptimizationAccessor.solve_model
    st = ("ok", "none")
    try:
        if not solve:
            OptimizationAccessor.solve_model = lambda self, **kw: ("ok", "optimal")
        with vlib.muted():
            kw = dict(weights=w) if w is not None else {}
            if cs["losses"]:
                kw["model_kwargs"] = dict(transmission_losses=cs["losses"])
            if r.random() < 0.3:
                kw["snapshots"] = n.snapshots
            st = n.optimize.optimize_mga(sense=sense, slack=slack, multi_investment_periods=cs["multi"], **kw, **KW)
    except Exception as x:
        return dict(out="refused"), dict(case, error="%s: %s" % (type(x).__name__, str(x)[:300]))
    finally:
        OptimizationAccessor.solve_model = keep
    rm = RealModel(cs, n, ready=True)
    ev, rm = observe(cs, xs, rm=rm)
    for c in ev["cands"]:
        c["vertex"] = False
    if not solve:
        for x in optcheck.vertices(rm, r, 3):
            adm, why, obj, scale = rm.admits(x, tol=1e-5)
            ev["cands"].append(dict(x=x, adm=adm, why=why or "-", obj=obj, scale=scale, priced=adm, vertex=True))
    ev.update(out="ok", best=best, slack=qs(slack), sense=sgn, weights=mean, scale=max(1.0, abs(total)), solved=solve and st[1] == "optimal")
    if ev["solved"]:
        ev["x"] = optcheck.solution_of(cs, n)
        ev["oscale"] = max(1.0, abs(float(n.objective)))
    return ev, case


# ------------------------------------------------------------------ iterations
def mesh(r):
    """A network whose lines and links are worth expanding."""
    import pypsa
    with vlib.muted():
        n = pypsa.Network(snapshots=range(r.randint(1, 2)))
        nb = r.randint(2, 4)
        dc = r.random() < 0.3
        buses = ["b%d" % i for i in range(nb)]
        for b in ("AC", "DC", "H2"):
            n.add("Carrier", b)
        for b in buses:
            n.add("Bus", b, v_nom=r.choice([1, 1, 380]) if not dc else 1, carrier="DC" if dc else "AC")
        n.buses["v_nom"] = n.buses.v_nom.iloc[0]
        n.add("Generator", "cheap", bus=buses[0], p_nom=200, marginal_cost=1)
        for b in buses[1:]:
            n.add("Generator", "dear " + b, bus=b, p_nom=200, marginal_cost=r.choice([20, 50]))
        for b in buses:
            if b == buses[-1] or r.random() < 0.4:
                n.add("Load", "load " + b, bus=b, p_set=[r.choice([5, 10, 20, 33]) for _ in n.snapshots])
        ends = [(buses[i], buses[i + 1]) for i in range(nb - 1)] + [tuple(r.sample(buses, 2)) for _ in range(r.randint(1, 3))]
        typ = "Al/St 240/40 2-bundle 220.0"
        for k, (a, b) in enumerate(ends):
            lo = r.choice([1, 2, 4])
            d = dict(bus0=a, bus1=b, x=r.choice([0.1, 0.2, 0.05]), r=r.choice([0.01, 0.1]), s_nom=r.choice([lo, 2, 5, 7]), capital_cost=r.choice([0.5, 1, 2]))
            if r.random() < 0.75:
                d.update(s_nom_extendable=True, s_nom_min=lo, s_nom_max=r.choice([INF, 20, 12, 26, 60]), s_nom=r.choice([lo, lo + 1, 2 * lo]))
            if not dc and n.buses.v_nom.iloc[0] == 380 and r.random() < 0.4:
                d.update(type=typ, length=r.choice([10, 50]), num_parallel=r.choice([1, 2]))
                if d.get("s_nom_extendable"):
                    d.update(s_nom=r.choice([500, 1000]), s_nom_min=500, s_nom_max=INF)
            n.add("Line", "line%d" % k, **d)
        for k in range(r.randint(0, 3)):
            a, b = r.sample(buses, 2)
            n.add("Link", "link%d" % k, bus0=a, bus1=b, carrier=r.choice(["DC", "H2", "AC"]), p_nom=r.choice([1, 3, 7]), p_nom_extendable=r.random() < 0.7, p_min_pu=r.choice([0, -1]),
                  capital_cost=r.choice([0.5, 1, 3]), p_nom_max=r.choice([INF, 14, 30]), efficiency=r.choice([1, 0.9]))
    return n


def num(v):
    return qs(float(v))


def rows(n):
    return dict(lines=[dict(x=num(l.x), r=num(l.r), num_parallel=num(l.num_parallel), s_nom=num(l.s_nom), ext=bool(l.s_nom_extendable)) for l in n.lines.itertuples()],
                links=[dict(p_nom=num(l.p_nom), ext=bool(l.p_nom_extendable)) for l in n.links.itertuples()])


def iterate(job):
    from pypsa.optimization.optimize import OptimizationAccessor
    seed, i = job
    r = random.Random("%s/it/%s" % (seed, i))
    n = mesh(r)
    if r.random() < 0.25:
        with vlib.muted():
            n.optimize(**KW)
    kw = dict(max_iterations=r.choice([1, 2, 3, 5, 5]), min_iterations=r.choice([1, 1, 2, 3]), msq_threshold=r.choice([0.05, 0.2, 0.01, 0.5]), track_iterations=r.random() < 0.3)
    if r.random() < 0.5:
        kw["line_unit_size"] = r.choice([5.0, 4, 2.5])
        if r.random() < 0.6:
            kw["line_threshold"] = r.choice([0.1, 0.5, 0.0])
        kw["fractional_last_unit_size"] = r.random() < 0.5
    if r.random() < 0.5:
        kw["link_unit_size"] = r.choice([{"DC": 5.0}, {"H2": 4}, {"DC": 3, "H2": 5}])
        if r.random() < 0.6:
            kw["link_threshold"] = r.choice([{"DC": 0.1}, {"H2": 0.5, "DC": 0.7}, {"DC": 0.0, "H2": 0.0}])
    if kw["track_iterations"] and r.random() < 0.5:
        kw["snapshots"] = n.snapshots
    before, calls, keep = rows(n), [], OptimizationAccessor.__call__
    base = np.sqrt(3) * n.lines["type"].map(n.line_types.i_nom) * n.lines.bus0.map(n.buses.v_nom)
    ev = dict(before=before, max=kw["max_iterations"], min=kw["min_iterations"], threshold=qs(kw["msq_threshold"]), line_unit=qs(kw.get("line_unit_size", 0)), frac=kw.get("fractional_last_unit_size", False),
              line_thr=qs(kw.get("line_threshold", 0.3)), link_units={k: qs(v) for k, v in kw.get("link_unit_size", {}).items()}, link_thr={k: qs(v) for k, v in kw.get("link_threshold", {}).items()},
              lines=[dict(id=l.Index, ext=bool(l.s_nom_extendable), typed=l.type != "", carrier=n.buses.at[l.bus0, "carrier"], base=num(base[l.Index]) if l.type else 1, max=num(l.s_nom_max)) for l in n.lines.itertuples()],
              links=[dict(id=l.Index, ext=bool(l.p_nom_extendable), carrier=l.carrier, max=num(l.p_nom_max)) for l in n.links.itertuples()], tracked=kw["track_iterations"], track=[])

    def call(self, *a, **k):
        rec = rows(self.n)
        out = keep(self, *a, **k)
        rec.update(opt=[num(v) for v in self.n.lines.s_nom_opt], linkopt=[num(v) for v in self.n.links.p_nom_opt])
        calls.append(rec)
        return out
    case = dict(network=dict(lines=n.lines[["bus0", "bus1", "x", "r", "s_nom", "s_nom_extendable", "s_nom_max", "type"]].to_dict("records"), links=n.links[["p_nom", "p_nom_extendable", "carrier"]].to_dict("records")), args=str(kw))
    try:
        OptimizationAccessor.__call__ = call
        with vlib.muted():
            st = n.optimize.optimize_transmission_expansion_iteratively(**kw, **KW)
    except RuntimeError as x:
        if "Optimization failed" in str(x):
            return None
        return dict(out="refused"), dict(case, error=str(x))
    except Exception as x:
        return dict(out="refused"), dict(case, error="%s: %s" % (type(x).__name__, str(x)[:300]))
    finally:
        OptimizationAccessor.__call__ = keep
    if kw["track_iterations"]:
        for k in itertools.count():
            c = "s_nom_opt_%d" % k
            if c not in n.lines:
                break
            ev["track"].append([num(v) for v in n.lines[c]])
    ev.update(out="ok", calls=calls, after=rows(n))
    return ev, case


# ------------------------------------------------------------------ fixing and shedding
def flat(n):
    o = netobs.absnet(n)
    out = {}
    for c, d in o["comps"].items():
        if c == "SubNetwork":
            continue
        for i, row in d["static"].items():
            for a, v in row.items():
                out["%s|%s|%s" % (c, a, i)] = v
        for a, cols in d["series"].items():
            for i, v in cols.items():
                out["%s|%s|%s|series" % (c, a, i)] = "|".join(v)
    return out


NOMS = {"Generator": "p_nom", "Line": "s_nom", "Transformer": "s_nom", "Link": "p_nom", "Store": "e_nom", "StorageUnit": "p_nom"}


def fixing(job):
    seed, i = job
    r = random.Random("%s/fix/%s" % (seed, i))
    cs = any_case(r)
    n = build(cs)
    what = r.choice(["capacities", "capacities", "dispatch", "shed", "shed"])
    out, want, case = "ok", {}, dict(case=optcheck.brief(cs), what=what)
    if what != "shed":
        n, st, cond = optcheck.solve(cs, n)
        if cond != "optimal":
            return None
    before = flat(n)
    try:
        with vlib.muted():
            if what == "capacities":
                n.optimize.fix_optimal_capacities()
                for c, nom in NOMS.items():
                    for j, row in n.static(c).iterrows():
                        want["%s|%s_extendable|%s" % (c, nom, j)] = "False"
                        if before["%s|%s_extendable|%s" % (c, nom, j)] == "True":
                            want["%s|%s|%s" % (c, nom, j)] = before["%s|%s_opt|%s" % (c, nom, j)]
            elif what == "dispatch":
                n.optimize.fix_optimal_dispatch()
                for c in ("Generator", "Load", "StorageUnit", "Store", "Link"):
                    p = "p0" if c == "Link" else "p"
                    for j in n.static(c).index:
                        if "%s|%s|%s|series" % (c, p, j) in before:
                            want["%s|p_set|%s|series" % (c, j)] = before["%s|%s|%s|series" % (c, p, j)]
                if r.random() < 0.6:      # the set points stay what they are when results are overwritten
                    case["then"] = "results are overwritten"
                    for c, p in (("Generator", "p"), ("StorageUnit", "p"), ("Store", "p"), ("Link", "p0"), ("Load", "p")):
                        d = n.dynamic(c)[p]
                        if len(d.columns):
                            d.iloc[0, 0] = 123.25
                            k = "%s|%s|%s|series" % (c, p, d.columns[0])
                            want[k] = "|".join(["123.25"] + before[k].split("|")[1:])
            else:
                kw = {}
                buses = list(n.buses.index)
                if r.random() < 0.5:
                    buses = r.sample(buses, r.randint(1, len(buses)))
                    kw["buses"] = pd.Index(buses)
                suffix = " load shedding"
                if r.random() < 0.4:
                    suffix = kw["suffix"] = r.choice([" ls", "_x"])
                val = {}
                for a, dflt, pool in (("sign", 1e-3, [1, 1e-3]), ("marginal_cost", 1e2, [5, 1000.5]), ("p_nom", 1e9, [10, 1e4])):
                    u = r.random()
                    if u < 0.4:
                        val[a] = {b: dflt for b in buses}
                    elif u < 0.7:
                        kw[a] = r.choice(pool)
                        val[a] = {b: kw[a] for b in buses}
                    else:
                        val[a] = {b: r.choice(pool) for b in buses}
                        kw[a] = pd.Series(val[a])[buses]
                ret = n.optimize.add_load_shedding(**kw)
                case["args"] = str(kw)
                import pypsa
                ref = pypsa.Network()
                ref.add("Generator", "g")
                dflt = {a: netobs.val(ref.generators.at["g", a]) for a in ref.generators.columns}
                for b in buses:
                    g = b + suffix
                    for a in n.generators.columns:
                        want["Generator|%s|%s" % (a, g)] = dflt.get(a, "nan")
                    want["Generator|bus|" + g] = netobs.val(b)
                    for a in val:
                        want["Generator|%s|%s" % (a, g)] = netobs.val(float(val[a][b]))
                    now = netobs.val(n.generators.at[g, "carrier"]) if g in n.generators.index else "?"
                    # any carrier will do, as long as there is such a carrier
                    want["Generator|carrier|" + g] = now if n.generators.carrier.get(g) in n.carriers.index else "a defined carrier"
                if sorted(map(str, ret)) != sorted(b + suffix for b in buses):
                    out = "wrong names returned"
    except Exception as x:
        return dict(out="refused", before={}, after={}, want={}), dict(case, error="%s: %s" % (type(x).__name__, str(x)[:300]))
    after = flat(n)
    if what == "shed":
        for k in list(after):
            if k.startswith("Carrier|") and k not in before:
                if k.split("|")[2] in set(n.generators.carrier):
                    want[k] = after[k]
    return dict(out=out, before=before, after=after, want=want), case


# ------------------------------------------------------------------ a power flow of the dispatch
def flowcase(r):
    """A network of a power flow which has something to decide, too."""
    n = pc.network(r, ac=True, dead=0.08)
    if isinstance(n.snapshots, pd.MultiIndex):
        return None
    for c in ("Generator", "StorageUnit", "Store", "Link"):
        n.dynamic(c)["p_set"] = n.dynamic(c)["p_set"].iloc[:, :0]
        n.static(c)["p_set"] = np.nan if c == "Generator" else 0.0
    n.lines["s_nom"] = 1e4
    n.links["p_nom"] = [r.choice([0, 20, 60]) for _ in n.links.index]
    n.links["p_min_pu"] = [r.choice([0, -1]) for _ in n.links.index]
    n.storage_units["p_nom"], n.storage_units["max_hours"], n.storage_units["state_of_charge_initial"] = 10, 3, 15
    n.stores["e_nom"], n.stores["e_initial"] = 30, 10
    n.generators["p_nom"] = [r.choice([20, 50, 100]) for _ in n.generators.index]
    n.generators["marginal_cost"] = [r.choice([1, 3, 7, 20]) for _ in n.generators.index]
    for b in n.buses.index:
        if r.random() < 0.75:
            n.add("Generator", "any " + b, bus=b, p_nom=200, p_min_pu=-1, marginal_cost=r.choice([30, 50, 80]), p_nom_extendable=r.random() < 0.2, capital_cost=1)
    n.generators["p_nom_extendable"] &= n.generators.active
    return n


def flow(job):
    from pypsa.optimization.optimize import OptimizationAccessor
    import pypsa
    seed, i = job
    r = random.Random("%s/flow/%s" % (seed, i))
    n = flowcase(r)
    if n is None:
        return None
    want, arg = pc.some(r, n)
    if not hasattr(arg, "__len__") or isinstance(arg, str):
        arg = None if len(want) == len(n.snapshots) else pd.Index(want)
    rest = [s for s in n.snapshots if s not in set(want)]
    kw, ev = {}, None
    dist = r.random() < 0.25
    if dist:
        kw = dict(distribute_slack=True, slack_weights="p_nom")
    names = [(c, j) for c in pc.ONES + ["Link"] for j in n.static(c).index]
    points = lambda: {"%s %s" % (c, j): " ".join(pc.dense(n, c, "p_set", j, rest)) for c, j in names} if rest else {}
    before, was, disp = pc.tables(n, want), points(), []
    call, pf = OptimizationAccessor.__call__, pypsa.Network.pf
    ended = []

    def optimise(self, *a, **k):
        st = call(self, *a, **k)
        ended.append(st)
        for c, j in names:
            d = n.dynamic(c)["p0" if c == "Link" else "p"]
            disp.append(dict(cls=c, name=str(j), p=[pc.num(v) for v in d[j].loc[want]] if j in d else ["0"] * len(want)))
        return st

    def powerflow(self, *a, **k):
        nonlocal ev
        ev = pc.inputs(n, want)
        ev.update(distribute=dist, mode="p_nom", given={"": "0"})
        return pf(self, *a, **k)
    case = dict(how="dispatch and power flow", kw=str(kw), asked="some" if rest else "all", buses=len(n.buses), lines=len(n.lines), trafos=len(n.transformers))
    OptimizationAccessor.__call__, pypsa.Network.pf = optimise, powerflow
    try:
        with vlib.muted():
            got = n.optimize.optimize_and_run_non_linear_powerflow(snapshots=arg, **kw, **KW)
    except Exception as x:
        if "Objective function could not be created" in str(x):      # nothing has a cost
            return None
        return dict(out="refused"), dict(case, error="%s: %s" % (type(x).__name__, str(x)[:300]))
    finally:
        OptimizationAccessor.__call__, pypsa.Network.pf = call, pf
    if not ended or ended[0][0] != "ok":
        return None
    if ev is None:
        return dict(out="refused"), dict(case, error="no power flow")
    pc.results(n, ev, want, True)
    now = points()
    conv = got["converged"]
    ev.update(disp=disp, others=[dict(what=k, was=was[k], **{"is": now[k]}) for k in sorted(was)],
              kept=pc.kept(before, pc.tables(n, want)), unreported=[])
    if list(conv.index) != list(want) or set(conv.columns) != set(n.sub_networks.index) or conv.isna().any().any():
        ev["unreported"] = ["?"]
    ev["conv"] = {str(b): [bool(conv[n.buses.sub_network[b]].iloc[k]) for k in range(len(want))] for b in n.buses.index}
    return ev, case


# ------------------------------------------------------------------ discretized capacities
def discrete(job):
    from pypsa.optimization.abstract import discretized_capacity
    seed, k, parts, share = job
    r = random.Random("%s/%s" % (seed, k))
    rows = []
    # values whose products are exact, or which are no ties: a tie is decided by rounding otherwise
    grid = [(o, m, u, t, f) for u in (5, 10, 4, 2.5) for m in [i / 2 * u / 5 for i in range(1, 36)] + [INF] for o in [j / 4 * (u / 5 if u != 4 else 1) for j in range(0, 71)] if o <= m
            for t in (0, 0.1, 0.25, 0.3, 0.5, 1) for f in (True, False) if t in (0, 0.25, 0.5, 1) and u != 4
            or abs(o % u - t * u) > 1e-6 and (m == INF or abs(o % u - t * (m % u)) > 1e-6)]
    for o, m, u, t, f in grid[k::parts]:
        if r.random() < share:
            rows.append(dict(opt=qs(o), max=qs(m), u=qs(u), thr=qs(t), frac=f, got=qs(discretized_capacity(o, m, u, t, f))))
    return [dict(rows=rows[i:i + 300]) for i in range(0, len(rows), 300)]


def about(cl):
    return optcheck.re.search("budget|weighted sum|better alternative|alternative violates|refused|admitted although|excluded", cl) is not None


def run(ctx):
    def count(name, got):
        ctx.cov[name] = ctx.cov.get(name, 0) + len(got)

    def alternatives(k):
        jobs = [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i, 10, i % 4 == 0) for i in range(ctx.n(60, 500))]
        got = [x for x in ctx.run(alternative, jobs, limit=200, label="near-optimal alternative") if x]
        c = ctx.cov.setdefault("decisions", optcheck.collections.Counter())
        for e, _ in got:
            for z in e.get("cands", []):
                c["admitted" if z["adm"] else "excluded by the budget" if z["why"] == "budget" else "excluded otherwise"] += 1
            c["solved"] += bool(e.get("solved"))
        ctx.judge("FollowUp", [g[0] for g in got], op="AlternativeFails", cases=[g[1] for g in got], label="near-optimal alternative", keep=about)
        count("alternatives", got)

    def iterations(k):
        got = [x for x in ctx.run(iterate, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(50, 300))], limit=200, label="expansion in iterations") if x]
        ctx.judge("FollowUp", [g[0] for g in got], op="IterationFails", cases=[g[1] for g in got], label="expansion in iterations")
        count("expansions", got)
        ctx.cov["iterations"] = ctx.cov.get("iterations", 0) + sum(len(g[0].get("calls", [])) for g in got)
        if got:
            ctx.samples[:] = [dict(case=got[0][1], calls=got[0][0].get("calls", [])[:2])]

    def fixes(k):
        got = [x for x in ctx.run(fixing, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(90, 500))], limit=100, label="fixing and shedding") if x]
        ctx.judge("FollowUp", [g[0] for g in got], op="FixFails", cases=[g[1] for g in got], label="fixing and shedding")
        count("fixed or shed", got)

    def flows(k):
        got = [x for x in ctx.run(flow, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(120, 600))], limit=100, label="dispatch and power flow") if x]
        ctx.judge("DispatchFlow", [g[0] for g in got], op="DispatchFlowFails", cases=[g[1] for g in got], label="dispatch and power flow")
        count("dispatch and power flow", got)
        flat = [c for e, _ in got if "conv" in e for v in e["conv"].values() for c in v]
        ctx.cov["converged buses and snapshots"] = ctx.cov.get("converged buses and snapshots", 0) + sum(flat)
        ctx.cov["not converged"] = ctx.cov.get("not converged", 0) + len(flat) - sum(flat)

    def grid(k):
        if k:
            return
        evs = [e for es in ctx.run(discrete, [(ctx.seed, j, 8, ctx.n(15, 100) / 100) for j in range(8)], label="discretized capacities") for e in es or []]
        ctx.judge("FollowUp", evs, op="DiscreteFails", label="discretized capacities")
        ctx.cov["discretized capacities"] = sum(len(e["rows"]) for e in evs)
    optcheck.rounds(ctx, [grid, alternatives, iterations, fixes, flows])
