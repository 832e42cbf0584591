"""Spatial clustering conserves totals and preserves structure."""
import random
import numpy as np
import pandas as pd
import vlib, optcheck
from optlib import *
from netobs import absnet, val

ONEPORT = ["Generator", "Load", "StorageUnit", "Store", "ShuntImpedance"]
CARR = ["gas", "wind", "solar"]


def network(r, agree=True):
    import pypsa
    n = pypsa.Network()
    multi = r.random() < 0.2
    if multi:
        n.set_snapshots(pd.MultiIndex.from_tuples([(y, t) for y in (2020, 2030) for t in range(2)], names=["period", "timestep"]))
        n.investment_periods = [2020, 2030]
        n.investment_period_weightings["years"] = [10, 5]
    else:
        n.set_snapshots(range(r.randint(1, 3)))
    sns = n.snapshots
    n.snapshot_weightings["objective"] = [r.choice([1, 2, 0.5]) for _ in sns]
    k = r.randint(2, 7)
    buses = ["b%d" % i for i in range(k)]
    for i, b in enumerate(buses):
        n.add("Bus", b, x=r.randint(0, 20) + i / 8, y=r.randint(40, 60) + i / 16, v_nom=r.choice([220, 380, 380]), v_mag_pu_max=r.choice([1.1, 1.05]), country="DE" if agree or r.random() < 0.7 else "FR")
    for c in CARR + ["AC"]:
        n.add("Carrier", c, co2_emissions=r.choice([0, 0.5]), color=r.choice(["", "red"]))
    if r.random() < 0.5:
        n.add("GlobalConstraint", "co2", sense="<=", constant=r.choice([10, 100]), carrier_attribute="co2_emissions")

    def num(attr, values, d, s, p=0.3):
        if r.random() < p:
            s[attr] = [r.choice(values) for _ in sns]
        else:
            d[attr] = r.choice(values)

    def odd(d, attr, values):
        """An attribute which has to agree within a group."""
        if not agree and r.random() < 0.15:
            d[attr] = r.choice(values)
    for c, count in dict(Line=r.randint(0, 6), Generator=r.randint(0, 6), Load=r.randint(0, 4), StorageUnit=r.randint(0, 4), Store=r.randint(0, 4), ShuntImpedance=r.randint(0, 2), Link=r.randint(0, 4)).items():
        for i in range(count):
            d, s = {}, {}
            if c == "Line":
                b0, b1 = r.sample(buses, 2)
                d = dict(bus0=b0, bus1=b1, x=r.choice([0.5, 1, 4]), r=r.choice([0, 0.25, 1]), b=r.choice([0, 0.0078125]), length=r.choice([100, 50, 400]), s_nom=r.choice([0, 100, 500]),
                         s_nom_min=r.choice([0, 10]), s_nom_max=r.choice([INF, 1000]), s_nom_extendable=r.random() < 0.4, num_parallel=r.choice([1, 2]), capital_cost=r.choice([0, 8, 20]),
                         terrain_factor=r.choice([1, 1.5]), v_ang_min=r.choice([-INF, -30]), lifetime=r.choice([INF, 40, 20]), build_year=r.choice([0, 2000, 2020]))
                num("s_max_pu", [1, 0.75, 0.5], d, s)
                odd(d, "carrier", ["DC", "AC"])
            elif c == "Link":
                b0, b1 = r.choice(buses), r.choice(buses)
                d = dict(bus0=b0, bus1=b1, efficiency=r.choice([1, 0.5]), p_nom=r.choice([0, 10, 5]), capital_cost=r.choice([0, 4, 10]), length=r.choice([0, 0, 100, 300]), carrier=r.choice(["AC", "gas"]))
                if third:
                    d.update(bus2=r.choice(buses + [""]), efficiency2=r.choice([1, 0.5]))
                num("p_max_pu", [1, 0.5], d, s)
                num("marginal_cost", [0, 2], d, s)
            else:
                d = dict(bus=r.choice(buses))
                if c != "ShuntImpedance":
                    d["carrier"] = r.choice(CARR[:2])
                if c == "Generator":
                    d.update(p_nom=r.choice([0, 10, 30, 60, 0.25]), p_nom_max=r.choice([INF, 100, 200]), p_nom_min=r.choice([0, 5]), capital_cost=r.choice([0, 5, 10]), efficiency=r.choice([1, 0.5]),
                             weight=r.choice([1, 2, 5]), ramp_limit_up=r.choice([float("nan"), 0.5, 1]), build_year=r.choice([0, 2010]), lifetime=r.choice([INF, 30]))
                    num("p_max_pu", [0, 0.25, 0.5, 1], d, s, 0.5)
                    num("marginal_cost", [0, 3, 8], d, s)
                    odd(d, "p_nom_extendable", [True])
                    odd(d, "committable", [True])
                elif c == "Load":
                    num("p_set", [0, 1.5, 20, 7], d, s, 0.6)
                    num("q_set", [0, 1], d, s, 0.2)
                    odd(d, "sign", [-1, 1])
                elif c == "StorageUnit":
                    d.update(p_nom=r.choice([0, 10, 30, 0.5]), max_hours=r.choice([1, 2, 6, 0.5]), capital_cost=r.choice([0, 5]), marginal_cost=r.choice([0, 1]))
                    num("inflow", [0, 5, 8], d, s, 0.4)
                    odd(d, "efficiency_store", [0.5])
                    odd(d, "cyclic_state_of_charge", [True])
                elif c == "Store":
                    d.update(e_nom=r.choice([0, 10, 30]), e_nom_max=r.choice([INF, 100]), capital_cost=r.choice([0, 5]))
                    odd(d, "e_initial", [4])
                    odd(d, "e_cyclic", [True])
                else:
                    odd(d, "g", [0.5])
            third = False if i == 0 and c != "Link" else third
            n.add(c, "%s%d" % (c.lower(), i), **{a: b for a, b in d.items() if a not in s}, **{a: pd.Series(v, index=sns, dtype=float) for a, v in s.items()})
        third = r.random() < 0.4
    return n, buses, multi


def components(n, time):
    out = {}
    for c in ["Bus", "Line", "Link"] + ONEPORT:
        st = n.static(c)
        df = n.components[c]["attrs"]
        inp = [a for a in st.columns if a not in df.index or not df.at[a, "status"].startswith("Output")]
        seq = []
        ports = [p for p in ([""] if c in ONEPORT else n.components[c].ports if c != "Bus" else [])]
        inp = [a for a in inp if a not in ["bus" + p for p in ports] and not (c == "Generator" and a == "control") and not (c == "Bus" and a in ("control", "generator", "sub_network"))]
        dense = {a: n.get_switchable_as_dense(c, a) for a in inp if time and a in df.index and df.at[a, "varying"] and not (c == "Bus")}
        for i in st.index:
            x = {a: val(st.at[i, a]) for a in inp}
            q = {a: qs(float(st.at[i, a])) for a in inp if isinstance(st.at[i, a], (float, int, np.integer, np.floating)) and not isinstance(st.at[i, a], (bool, np.bool_)) and a not in dense}
            seq.append(dict(id=i, bus={p: st.at[i, "bus" + p] for p in ports}, carrier=st.at[i, "carrier"] if "carrier" in st and c != "Bus" else "", x=x, q=q,
                            s={a: [qs(float(v)) for v in d[i]] for a, d in dense.items()}))
        if seq:
            out[c] = seq
    return out


def rest(n, time):
    o = dict(carriers=sorted((i, str({a: val(v) for a, v in x.items()})) for i, x in n.carriers.iterrows()),
             constraints=sorted((i, str({a: val(v) for a, v in x.items() if a != "mu"})) for i, x in n.global_constraints.iterrows()))
    if time:
        o.update(snapshots=[str(s) for s in n.snapshots], weightings=[[val(v) for v in row] for row in n.snapshot_weightings.values], periods=[str(p) for p in n.investment_periods],
                 years=[[val(v) for v in row] for row in n.investment_period_weightings.values])
    return {k: repr(v) for k, v in o.items()}


def dist(a, b):
    from math import radians, sin, cos, asin, sqrt
    (x0, y0), (x1, y1) = a, b
    x0, y0, x1, y1 = map(radians, (x0, y0, x1, y1))
    return 2 * 6371 * asin(sqrt(sin((y1 - y0) / 2) ** 2 + cos(y0) * cos(y1) * sin((x1 - x0) / 2) ** 2))


def job(j):
    seed, i = j
    r = random.Random("%s/%s" % (seed, i))
    agree = r.random() < 0.6
    with vlib.muted():
        n, buses, multi = network(r, agree)
    k = r.randint(1, len(buses))
    names = ["%d" % c for c in range(k)] if r.random() < 0.6 else ["north", "alpha", "b1", "zulu", "1", "x y", "c"][:k]
    busmap = pd.Series({b: r.choice(names) for b in buses})
    if r.random() < 0.2:
        busmap = pd.Series(buses, buses)                        # every bus stays
    kw, custom = {}, {}
    opt = dict(aggregated=[], carriers=["*"], buses=["*"], groupers=[], factor="1", scale=True, time=True)
    if r.random() < 0.5:
        kw["aggregate_generators_weighted"] = True
        opt["aggregated"].append("Generator")
        if r.random() < 0.4:
            kw["aggregate_generators_carriers"] = opt["carriers"] = r.sample(CARR, r.randint(1, 2))
        if r.random() < 0.4:
            kw["aggregate_generators_buses"] = opt["buses"] = r.sample(buses, r.randint(1, len(buses)))
        if r.random() < 0.3:
            kw["generator_strategies"] = custom["Generator"] = r.choice([{"p_nom_max": "weighted_min"}, {"p_max_pu": "max", "marginal_cost": "mean"}, {"p_max_pu": "weighted_average", "capital_cost": "max"}])
    if r.random() < 0.5:
        cs = r.sample(["Load", "StorageUnit", "Store"], r.randint(1, 3))
        kw["aggregate_one_ports"] = {c: None for c in cs}
        opt["aggregated"] += cs
        if r.random() < 0.3:
            custom[cs[0]] = {"capital_cost": "max"} if cs[0] != "Load" else {"p_set": "max"}
            kw["one_port_strategies"] = {cs[0]: dict(custom[cs[0]])}
    if r.random() < 0.3:
        kw["line_length_factor"] = 1.25
        opt["factor"] = "1.25"
    if r.random() < 0.25:
        kw["custom_line_groupers"] = opt["groupers"] = r.choice([["build_year"], ["num_parallel", "terrain_factor"]])
    if r.random() < 0.3:
        kw["scale_link_capital_costs"] = opt["scale"] = False
    if r.random() < 0.2:
        kw["with_time"] = opt["time"] = False
    if r.random() < 0.2:
        kw["bus_strategies"] = {"v_nom": "min"}
        custom["Bus"] = {"v_nom": "min"}
    if r.random() < 0.2:
        kw["line_strategies"] = {"s_nom_max": "min", "s_max_pu": "min"}
        custom["Line"] = {"s_nom_max": "min", "s_max_pu": "min"}
    solved = r.random() < 0.15 and not multi
    with vlib.muted():
        if solved and len(n.lines) and not multi:
            try:
                n.lpf()
            except Exception:
                pass
    time = opt["time"]
    before = repr(absnet(n))
    case = dict(network=i, busmap=busmap.to_dict(), options={a: str(b) for a, b in kw.items()}, solved=solved, buses=n.buses[["x", "y", "v_nom"]].to_dict("index"))
    groups = {c: [list(busmap.index[busmap == c])] for c in set(busmap)}
    pos = {c: (n.buses.x[g[0]].mean(), n.buses.y[g[0]].mean()) for c, g in groups.items()}
    ev = dict(map=busmap.to_dict(), opt=opt, custom=custom, old=components(n, time), dist={c: {d: qs(dist(pos[c], pos[d])) for d in pos} for c in pos}, steps=len(n.snapshots) if time else 0, rest=rest(n, time),
              new={}, linemap={}, restnew={}, changed=False, shared="")
    ev["old"].setdefault("Line", []), ev["old"].setdefault("Link", [])
    try:
        with vlib.muted():
            C = n.cluster.get_clustering_from_busmap(busmap, **kw)
        m = C.n
        ev.update(out="ok", new=components(m, time), restnew=rest(m, time), linemap={a: str(b) for a, b in C.linemap.items()}, changed=repr(absnet(n)) != before)
    except AssertionError as x:
        ev["out"] = "refused"
        case["error"] = str(x)[:200]
    except Exception as x:
        ev["out"] = "refused"
        case["error"] = "%s: %s" % (type(x).__name__, str(x)[:300])
    if ev["out"] == "ok":                                          # the networks are independent of each other
        with vlib.muted():
            for c in list(ev["new"]) + ["Carrier", "GlobalConstraint"]:
                st = m.static(c)
                for a in st.columns:
                    if st[a].dtype == float and len(st):
                        st[a] += 1
                        st.iloc[0, st.columns.get_loc(a)] = 77
                for a, df in m.dynamic(c).items():
                    if df.size:
                        df.iloc[0, 0] = 77
                if repr(absnet(n)) != before:
                    ev["shared"] = c
                    break
            m.snapshot_weightings.iloc[0, 0] = 55
            if not ev["shared"] and repr(absnet(n)) != before:
                ev["shared"] = "weightings"
    return ev, case


def maps(j):
    seed, i = j
    r = random.Random("%s/%s" % (seed, i))
    import pypsa
    n = pypsa.Network()
    k = r.randint(1, 9)
    pts = r.sample([(x, y) for x in range(6) for y in range(6)], k)
    for b in range(k):
        n.add("Bus", "b%d" % b, x=pts[b][0], y=pts[b][1], country=r.choice(["DE", "FR"]))
    edges = []
    kind = r.choice(["stubs", "stubs", "kmeans", "hac", "modularity"])
    for e in range(r.randint(0, k + 2)):
        if k > 1:
            b0, b1 = r.sample(range(k), 2)
            edges.append(["b%d" % b0, "b%d" % b1])
    if kind in ("hac", "modularity"):                             # connected
        edges += [["b%d" % r.randrange(b), "b%d" % b] for b in range(1, k)]
    r.shuffle(edges)
    for e, (b0, b1) in enumerate(edges):
        n.add("Line" if kind == "modularity" or r.random() < 0.7 else "Link", "e%d" % e, bus0=b0, bus1=b1, **({}))
    n.lines["x"], n.lines["s_nom"] = 0.5, [r.choice([1, 5, 20]) for _ in n.lines.index]
    wanted = r.randint(1, k)
    case = dict(kind=kind, edges=edges, buses=pts, wanted=wanted)
    with vlib.muted():
        if kind == "stubs":
            bm = n.cluster.busmap_by_stubs() if hasattr(n.cluster, "busmap_by_stubs") else __import__("pypsa.clustering.spatial", fromlist=["x"]).busmap_by_stubs(n)
        elif kind == "kmeans":
            bm = n.cluster.busmap_by_kmeans(pd.Series([r.randint(1, 4) for _ in n.buses.index], n.buses.index), wanted, random_state=1)
        elif kind == "hac":
            if k < 2:
                return None
            bm = n.cluster.busmap_by_hac(wanted, feature=n.buses[["x", "y"]])
        else:
            if k < 2:
                return None
            bm = n.cluster.busmap_by_greedy_modularity(wanted)
    return dict(kind=kind, buses=list(n.buses.index), edges=edges, map={str(a): str(b) for a, b in bm.items()}, wanted=wanted), case


def run(ctx):
    def networks(k):
        got = [x for x in ctx.run(job, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(200, 1500))], limit=120, label="clustering") if x]
        ctx.judge("Clustering", [g[0] for g in got], op="ClusteringFails", cases=[g[1] for g in got], label="clustering")
        ctx.cov["clusterings"] = ctx.cov.get("clusterings", 0) + len(got)
        ctx.cov["refused"] = ctx.cov.get("refused", 0) + sum(g[0]["out"] != "ok" for g in got)
        ctx.samples[:] = [got[0][1]]

    def busmaps(k):
        got = [x for x in ctx.run(maps, [("%s/m/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(120, 1000))], limit=120, label="bus maps") if x]
        ctx.judge("Clustering", [g[0] for g in got], op="BusmapFails", cases=[g[1] for g in got], label="bus maps")
        ctx.cov["bus maps"] = ctx.cov.get("bus maps", 0) + len(got)
    optcheck.rounds(ctx, [networks, busmaps])
