"""Statistics are weighted sums of the underlying results."""
import re, random
import numpy as np
import pandas as pd
import vlib, optcheck
from optlib import *

STATS = ["capex", "installed_capex", "expanded_capex", "optimal_capacity", "installed_capacity", "expanded_capacity", "opex", "system_cost", "supply", "withdrawal",
         "transmission", "energy_balance", "curtailment", "capacity_factor", "revenue", "market_value"]
TIMED = {"opex", "system_cost", "supply", "withdrawal", "transmission", "energy_balance", "curtailment", "capacity_factor", "revenue", "market_value"}
CARR = ["wind", "solar", "gas", "AC", "DC", "H2"]
COSTS = ["marginal_cost", "marginal_cost_quadratic", "marginal_cost_storage", "spill_cost", "start_up_cost", "shut_down_cost", "stand_by_cost"]
BRANCH = {"Line", "Transformer", "Link"}
NOMS = {"Generator": "p_nom", "Line": "s_nom", "Transformer": "s_nom", "Link": "p_nom", "Store": "e_nom", "StorageUnit": "p_nom"}


def quarters(r, lo=-8, hi=16):
    return r.randint(lo * 4, hi * 4) / 4


def network(r):
    """A network with arbitrary tables of inputs and results."""
    import pypsa
    n = pypsa.Network()
    multi = r.random() < 0.35
    if multi:
        years = [2020, 2030, 2040][: r.choice([2, 2, 3])]
        n.set_snapshots(pd.MultiIndex.from_tuples([(y, t) for y in years for t in range(r.randint(1, 2))], names=["period", "timestep"]))
        n.investment_periods = years
        n.investment_period_weightings["years"] = [r.choice([1, 10]) for _ in years]
        n.investment_period_weightings["objective"] = [r.choice([1, 0.5]) for _ in years]
    else:
        n.set_snapshots(range(r.randint(1, 4)) if r.random() < 0.5 else pd.date_range("2025-01-01", periods=r.randint(1, 4), freq="h"))
    sns, T = n.snapshots, len(n.snapshots)
    for w in ("generators", "stores", "objective"):
        n.snapshot_weightings[w] = [r.choice([1, 0.5, 2, 3, 0.25]) for _ in sns]
    for c in CARR:
        if c in ("AC", "wind") or r.random() < 0.7:
            n.add("Carrier", c, nice_name=r.choice(["", "", "Nice " + c, "Power"]))
    buses = ["b%d" % i for i in range(r.randint(1, 4))]
    for b in buses:
        n.add("Bus", b, carrier=r.choice(["AC", "AC", "H2", "DC"]), country=r.choice(["DE", "FR", ""]), location=r.choice(["north", "south"]), unit=r.choice(["MWh_el", "MWh_LHV", ""]))
        n.buses_t.marginal_price[b] = [quarters(r, -4, 20) for _ in sns]
    counts = dict(Generator=r.randint(0, 4), Load=r.randint(0, 2), StorageUnit=r.randint(0, 2), Store=r.randint(0, 2), Link=r.randint(0, 3), Line=r.randint(0, 3), Transformer=r.randint(0, 1), ShuntImpedance=r.randint(0, 1))
    third = r.random() < 0.5
    for c, k in counts.items():
        for i in range(k):
            d, ser = {}, {}
            if c in BRANCH:
                d.update(bus0=r.choice(buses), bus1=r.choice(buses), **({} if c == "Link" else dict(x=0.1)))
                if c == "Link" and third:
                    d["bus2"] = r.choice(buses + [""])
                    d["efficiency2"] = r.choice([1, 0.5, -0.25])
                if c == "Link":
                    d["efficiency"] = r.choice([1, 0.5, 0.75])
            else:
                d["bus"] = r.choice(buses)
                if r.random() < 0.3 and c != "ShuntImpedance":
                    d["sign"] = r.choice([1, -1, 0.5])
            if c not in ("Transformer", "ShuntImpedance"):
                d["carrier"] = r.choice(CARR + [""])
            if r.random() < 0.15:
                d["active"] = False
            if c in NOMS:
                d.update({NOMS[c]: r.choice([0, 1, 2, 4, 8]), NOMS[c] + "_opt": r.choice([0, 1, 2, 4, 8, 10]), "capital_cost": r.choice([0, 1, 2.5, 10])})
                for a in ("_nom_min", "_nom_max", "_nom_mod"):          # of no importance for results
                    if r.random() < 0.1:
                        d[NOMS[c][0] + a] = r.choice([1, 3])
                if r.random() < 0.5:
                    d[NOMS[c] + "_extendable"] = True
            if multi and c not in ("Load", "ShuntImpedance"):
                d.update(build_year=r.choice([0, 2020, 2025, 2030]), lifetime=r.choice([INF, 10, 15, 25]))
            if c in ("Generator", "Link") and r.random() < 0.4:
                d["committable"] = True
            if c == "StorageUnit":
                d["max_hours"] = r.choice([1, 2, 6, 0.5])
            for t in COSTS:
                if t in n.components[c].defaults.index:
                    d[t] = r.choice([0, 0, 1, 2.5, 4])
                    if n.components[c].defaults.at[t, "type"] == "static or series" and r.random() < 0.3:
                        ser[t] = [r.choice([0, 1, 3, 0.5]) for _ in sns]
            if c in ("Generator", "StorageUnit"):
                d["p_max_pu"] = r.choice([1, 0.5, 0])
                if r.random() < 0.4:
                    ser["p_max_pu"] = [r.choice([0, 0.25, 1]) for _ in sns]
            name = "%s%d" % (c.lower(), i)
            n.add(c, name, **{a: b for a, b in d.items() if a not in ser}, **{k: pd.Series(v, index=sns, dtype=float) for k, v in ser.items()})
    for c in counts:
        n.static(c)["zone"] = [r.choice(["z1", "z2"]) for _ in n.static(c).index]
        ports = n.components[c].ports
        for p in ports:
            attr = "p" + p
            ids = [i for i in n.static(c).index if n.static(c).at[i, "bus" + p] != ""]
            fill(r, n, c, attr, ids)
            for i in set(n.static(c).index) - set(ids):            # an empty port
                n.dynamic(c)[attr][i] = 0.0
        extra = dict(Store=["e"], StorageUnit=["p_dispatch", "p_store", "state_of_charge", "spill"]).get(c, [])
        for attr in extra:
            fill(r, n, c, attr, n.static(c).index)
        if c in ("Generator", "Link"):
            for attr in ("status", "start_up", "shut_down"):
                fill(r, n, c, attr, n.static(c).index[n.static(c).committable], lambda: r.choice([0, 1]))
    return n, multi


def fill(r, n, c, attr, ids, draw=None):
    on = {y: n.get_active_assets(c, y) for y in (n.investment_periods if len(n.investment_periods) else [None])}
    zero = r.random() < 0.1
    df = pd.DataFrame({i: [0.0 if zero or not on[s[0] if isinstance(s, tuple) else None][i] else float((draw or (lambda: quarters(r)))()) for s in n.snapshots] for i in ids}, index=n.snapshots)
    df.columns = pd.Index(list(ids), name=n.static(c).index.name)
    n.dynamic(c)[attr] = df


def table(n, multi):
    """The tables of the network, for the specification."""
    per = [int(s[0]) if multi else 0 for s in n.snapshots]
    ev = dict(linear=False, w={k: [qs(v) for v in n.snapshot_weightings[k]] for k in ("generators", "stores", "objective")}, per=per, years=[int(y) for y in n.investment_periods], multi=multi,
              buses={b: dict(carrier=x.carrier, country=x.country, location=x.location, unit=x.unit) for b, x in n.buses.iterrows()},
              nice={c: x for c, x in n.carriers.nice_name.items() if x != ""}, price={b: [qs(v) for v in n.buses_t.marginal_price[b]] for b in n.buses.index}, assets=[])
    for c in ("Generator", "Load", "StorageUnit", "Store", "Link", "Line", "Transformer", "ShuntImpedance"):
        st, dy = n.static(c), n.dynamic(c)
        ports = list(n.components[c].ports)
        for i, x in st.iterrows():
            eff = {"": 1, "0": -1, "1": x.get("efficiency", 1) if c == "Link" else 1}
            eff.update({p: x["efficiency" + p] for p in ports if p not in eff})
            v = {NOMS[c]: qs(x[NOMS[c]]), NOMS[c] + "_opt": qs(x[NOMS[c] + "_opt"]), "cost": qs(x.capital_cost)} if c in NOMS else {}
            if "sign" in st:
                v["sign"] = qs(x["sign"])
            if c == "StorageUnit":
                v["max_hours"] = qs(x.max_hours)
            v["committable"] = bool(x.get("committable", False))
            s = {a: [qs(z) for z in dy[a][i]] for a in dy if i in dy[a].columns}
            for a in COSTS + ["p_max_pu"]:
                if a in st and a not in s:
                    s[a] = [qs(x[a])] * len(n.snapshots)
            ev["assets"].append(dict(c=c, id=i, carrier=x.get("carrier", ""), active=bool(x.active), build_year=int(x.get("build_year", 0)), lifetime=qs(x.get("lifetime", INF)), ports=ports,
                                     bus={p: x["bus" + p] for p in ports}, eff={p: qs(e) for p, e in eff.items() if p in ports}, v=v, s=s, cols=dict(zone=x.zone)))
    return ev


def matching(arg, names):
    if arg is None:
        return ["*"]
    if isinstance(arg, list):
        return arg
    return [arg] if arg in names else sorted({c for c in names if re.search(arg, c)}) or ["no such carrier"]


def rows_of(df, ev, n, aggt, multi):
    keys = [tuple(map(str, k)) if isinstance(k, tuple) else (str(k),) for k in df.index]
    if isinstance(df, pd.Series):
        return [dict(key=list(k), vals=[qs(float(v))]) for k, v in zip(keys, df)]
    cols = list(n.snapshots) if aggt == "none" else list(n.investment_periods) if multi else None
    if cols is None:
        raise vlib.MachineryError("a table with columns %s" % list(df.columns))
    if not set(df.columns) <= set(cols):
        return [dict(key=list(k), vals=["NaN"] * len(df.columns)) for k in keys] or [dict(key=["columns %s" % list(df.columns)], vals=["1"])]
    df = df.reindex(columns=cols)
    return [dict(key=list(k), vals=[qs(float(v)) for v in r]) for k, r in zip(keys, df.values)]


def arguments(r, n, multi, stat):
    """Arguments of a call, and what they mean."""
    have = [c for c in ("Generator", "Load", "StorageUnit", "Store", "Link", "Line", "Transformer", "ShuntImpedance") if len(n.static(c))]
    kw, m = {}, dict(stat=stat, storage=False, direction="none", costtypes=COSTS, across=False, single=False, nicenames=True, agg="sum", keepzero=False, ports=["*"])
    default = {"supply": "all", "withdrawal": "all", "energy_balance": "all", "revenue": "all", "market_value": "all"}.get(stat, "first")
    m["aggt"] = {"capacity_factor": "mean", "market_value": "mean"}.get(stat, "sum") if stat in TIMED else "sum"
    if stat in TIMED and r.random() < 0.4:
        v = r.choice(["sum", "mean", False] if stat != "system_cost" else ["sum", "mean"])
        kw["aggregate_time"], m["aggt"] = v, v or "none"
    comps = have
    if stat == "transmission":
        comps = [c for c in have if c in BRANCH]
    u = r.random()
    if u < 0.2:
        kw["comps"] = r.choice(have)
        comps, m["single"] = [kw["comps"]], True
    elif u < 0.4:
        comps = kw["comps"] = r.sample(have, r.randint(1, len(have)))
    if "optimal_capacity installed_capacity".find(stat) >= 0 and r.random() < 0.25:
        kw["storage"] = m["storage"] = True
        comps, m["single"] = [c for c in have if c in ("Store", "StorageUnit")], False
    if r.random() < 0.25 and "Transformer" not in comps and "ShuntImpedance" not in comps:      # these have no carrier
        kw["carrier"] = r.choice([r.sample(CARR, 2), r.choice(CARR), "a", "^w"])
    elif r.random() < 0.15:
        rest = [c for c in comps if c not in ("Transformer", "ShuntImpedance")]
        if rest and not m["single"] and not m["storage"]:
            kw["comps"] = comps = rest
            kw["carrier"] = r.choice(CARR)
    if isinstance(kw.get("carrier"), str) and kw["carrier"] in CARR and any(set(n.static(c).carrier) and kw["carrier"] not in set(n.static(c).carrier) for c in comps):
        pass                                                       # not a substring of another name
    if r.random() < 0.3:
        kw["bus_carrier"] = r.choice([["AC"], ["AC", "H2"], "AC", "H2", "C$", "2"])
    if stat in ("supply", "withdrawal", "energy_balance", "market_value") and isinstance(kw.get("bus_carrier"), (str, list)):
        known = [c for c in (["AC", "H2"] if isinstance(kw["bus_carrier"], list) else [kw["bus_carrier"]]) if c in set(n.buses.carrier)]
        kw.pop("bus_carrier")                                      # balances are refused for unknown bus carriers
        if known:
            kw["bus_carrier"] = known if len(known) > 1 or r.random() < 0.5 else known[0]
    between = kw.get("bus_carrier") if stat == "transmission" else None
    m["comps"], m["carriers"], m["buscarriers"] = comps, matching(kw.get("carrier"), CARR), matching(kw.get("bus_carrier"), set(n.buses.carrier))
    m["between"] = ["*"] if between is None else [between] if isinstance(between, str) else between
    if stat in ("optimal_capacity", "installed_capacity", "expanded_capacity") and "bus_carrier" in kw:
        default = "all"
    m["atport"] = default
    if r.random() < 0.25 and stat not in ("capacity_factor",):
        v = r.choice([True, False])
        kw["at_port"], m["atport"] = v, "all" if v else "first"
        if r.random() < 0.3:
            p = r.choice([["0"], ["1"], ["", "0"], ["0", "1"]])
            kw["at_port"], m["atport"], m["ports"] = p if len(p) > 1 or r.random() < 0.5 else p[0], "all", p
    by = r.choice(["default", "default", "carrier", "bus", "bus_carrier", "country", "location", "unit", "name", "zone", ["carrier", "bus"], ["bus_carrier", "zone"], ["carrier", "bus_carrier"], False, "function", ["name", "bus", "carrier"]])
    m["by"] = ["carrier", "bus_carrier"] if by == "default" and stat == "energy_balance" else ["carrier"] if by == "default" else ["name"] if by is False else ["zone"] if by == "function" else by if isinstance(by, list) else [by]
    if by == "function":
        kw["groupby"] = lambda n, c, port="", nice_names=False: n.static(c)["zone"].rename("zone")
    elif by != "default":
        kw["groupby"] = by
    if r.random() < 0.3:
        kw["nice_names"] = m["nicenames"] = r.random() < 0.5
    if r.random() < 0.25:
        kw["drop_zero"] = r.random() < 0.4
        m["keepzero"] = not kw["drop_zero"] and stat not in ("expanded_capacity", "market_value", "capacity_factor")
    if r.random() < 0.2 and stat not in ("capacity_factor", "market_value"):
        kw["round"] = r.choice([8, 3])
    if r.random() < 0.2:
        kw["aggregate_across_components"] = m["across"] = True
    elif r.random() < 0.15 and not (multi and stat in TIMED) and m["aggt"] != "none" and stat not in ("capacity_factor", "market_value", "system_cost") and not stat.startswith("expanded"):
        kw["aggregate_groups"] = m["agg"] = r.choice(["max", "min", "mean"] if m["atport"] == "first" else ["max", "min"])
    if stat == "opex" and r.random() < 0.4:
        v = r.choice([r.choice(COSTS), r.sample(COSTS, 3)])
        kw["cost_types"], m["costtypes"] = v, [v] if isinstance(v, str) else v
    if stat == "energy_balance" and r.random() < 0.3:
        kw["direction"] = m["direction"] = r.choice(["supply", "withdrawal"])
    if stat == "revenue" and r.random() < 0.4:
        kw["direction"] = m["direction"] = r.choice(["input", "output"])
    m["tol"] = "0.01" if kw.get("round") == 3 or stat in ("capacity_factor", "market_value") else "1e-4"
    return kw, m


def job(j):
    seed, i, calls = j
    r = random.Random("%s/%s" % (seed, i))
    out = []
    with vlib.muted():
        n, multi = network(r)
        base = table(n, multi)
    if not base["assets"]:
        return None
    for k in range(calls):
        stat = r.choice(STATS)
        kw, m = arguments(r, n, multi, stat)
        if not m["comps"]:
            continue
        case = dict(network=i, call="n.statistics.%s(%s)" % (stat, ", ".join("%s=%r" % (a, b if not callable(b) else "function") for a, b in kw.items())))
        ev = dict(base, **m)
        try:
            with vlib.muted():
                df = getattr(n.statistics, stat)(**kw)
            ev.update(out="ok", rows=rows_of(df, ev, n, m["aggt"], multi))
        except vlib.MachineryError:
            raise
        except Exception as x:
            ev.update(out="refused", rows=[])
            case["error"] = "%s: %s" % (type(x).__name__, str(x)[:200])
        out.append((ev, case))
    return out


COLUMNS = {"Optimal Capacity": "optimal_capacity", "Installed Capacity": "installed_capacity", "Supply": "supply", "Withdrawal": "withdrawal", "Energy Balance": "energy_balance",
           "Transmission": "transmission", "Capacity Factor": "capacity_factor", "Curtailment": "curtailment", "Capital Expenditure": "capex", "Operational Expenditure": "opex",
           "Revenue": "revenue", "Market Value": "market_value"}


def summary(j):
    """The table of all statistics: a statistic in each column."""
    seed, i = j
    r = random.Random("%s/sum/%s" % (seed, i))
    with vlib.muted():
        n, multi = network(r)
        base = table(n, multi)
    have = sorted({a["c"] for a in base["assets"]})
    if not have:
        return None
    kw, comps, by = {}, have, r.choice(["carrier", "carrier", ["carrier", "zone"], ["bus", "carrier"]])
    if by != "carrier":
        kw["groupby"] = by
    if r.random() < 0.4:
        comps = kw["comps"] = r.sample(have, r.randint(1, len(have)))
    if r.random() < 0.3:
        kw["nice_names"] = r.random() < 0.5
    if r.random() < 0.3:
        kw["aggregate_across_components"] = True
    case = dict(network=i, call="n.statistics(%s)" % kw)
    out = []
    try:
        with vlib.muted():
            df = n.statistics(**kw)
    except Exception as x:
        return [(dict(out="refused", rows=[]), dict(case, error="%s: %s" % (type(x).__name__, str(x)[:200])))]
    for name, stat in COLUMNS.items():
        ev = dict(base, stat=stat, storage=False, direction="none", costtypes=COSTS, across=kw.get("aggregate_across_components", False), single=False, nicenames=kw.get("nice_names", True), agg="sum",
                  keepzero=False, ports=["*"], aggt="mean" if stat in ("capacity_factor", "market_value") else "sum", comps=[c for c in comps if stat != "transmission" or c in BRANCH or "comps" in kw], carriers=["*"], buscarriers=["*"],
                  between=["*"], atport="first", by=by if isinstance(by, list) else [by], tol="0.01" if stat in ("capacity_factor", "market_value") else "1e-4", out="ok")
        if name not in df.columns.get_level_values(0):
            col = pd.DataFrame(0.0, index=df.index, columns=n.investment_periods) if multi else pd.Series(0.0, index=df.index)
        elif multi and df.columns.nlevels > 1:
            col = df[name]
            if list(col.columns) == [""] or len(col.columns) == 1 and not set(col.columns) <= set(n.investment_periods):
                col = pd.DataFrame({y: col.iloc[:, 0] for y in n.investment_periods})
        else:
            col = df[name]
            if multi:
                col = pd.DataFrame({y: col for y in n.investment_periods})
        ev["rows"] = rows_of(col, ev, n, ev["aggt"], multi)
        out.append((ev, dict(case, column=name)))
    return out


def solved(j):
    """Identities of the statistics of a solved network."""
    from gencases import random_case
    seed, i = j
    r = random.Random("%s/solved/%s" % (seed, i))
    cs = random_case(r, r.choice(["cost", "invest", "balance", "uc", "storage", "loss"]))
    if cs["sel"] != list(range(1, cs["T"] + 1)):
        return None
    n, st, cond = optcheck.solve(cs)
    if cond != "optimal":
        return None
    case = dict(case=optcheck.brief(cs))
    with vlib.muted():
        eb = n.statistics.energy_balance(groupby="bus", aggregate_time=False, aggregate_across_components=True, nice_names=False)
        eb = eb.reindex(columns=n.snapshots).fillna(0)
        kw = dict(groupby=False, round=8)
        tot = lambda df, y: 0.0 if df.empty else float(df[y].sum()) if isinstance(df, pd.DataFrame) else float(df.sum())
        capex, opex = n.statistics.capex(**kw), n.statistics.opex(**kw)
        given = 0.0
        cost = []
        for y in n.investment_periods if cs["multi"] else [None]:
            w = float(n.investment_period_weightings.objective[y]) if cs["multi"] else 1.0
            cost.append(dict(w=qs(w), capex=qs(tot(capex, y)), opex=qs(tot(opex, y))))
            for c, nom in NOMS.items():
                on = n.get_active_assets(c, y)
                x = n.static(c)[on & ~n.static(c)[nom + "_extendable"]]
                given += w * float((x[nom] * x.capital_cost).sum())
    return dict(balance={str(b): [qs(float(v)) for v in row] for b, row in zip(eb.index, eb.values)}, cost=cost, objective=qs(float(n.objective)), constant=qs(given + float(n.objective_constant)),
                scale=qs(abs(float(n.objective)) + abs(given)), tol="1e-3"), case


def run(ctx):
    def tables(k):
        got = [x for x in ctx.run(job, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i, 12) for i in range(ctx.n(70, 300))], limit=120, label="statistics") if x]
        got = [x for g in got for x in g]
        ctx.judge("Statistics", [g[0] for g in got], op="StatisticFails", cases=[g[1] for g in got], label="statistics")
        ctx.cov["calls"] = ctx.cov.get("calls", 0) + len(got)
        for e, _ in got:
            ctx.cov[e["stat"]] = ctx.cov.get(e["stat"], 0) + 1
        ctx.samples[:] = [dict(call=got[0][1], rows=got[0][0]["rows"][:4])]

    def sums(k):
        got = [x for g in ctx.run(summary, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(30, 150))], limit=120, label="table of statistics") if g for x in g]
        ctx.judge("Statistics", [g[0] for g in got], op="StatisticFails", cases=[g[1] for g in got], label="table of statistics")
        ctx.cov["columns of tables"] = ctx.cov.get("columns of tables", 0) + len(got)

    def identities(k):
        got = [x for x in ctx.run(solved, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(50, 300))], limit=120, label="identities of a solved network") if x]
        ctx.judge("Statistics", [g[0] for g in got], op="SolvedFails", cases=[g[1] for g in got], label="identities of a solved network")
        ctx.cov["solved networks"] = ctx.cov.get("solved networks", 0) + len(got)
    optcheck.rounds(ctx, [tables, sums, identities])
