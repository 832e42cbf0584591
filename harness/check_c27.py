"""Networks with any subset of injected defects: does the consistency check report exactly the kinds which are there?"""
import contextlib, io, logging, random, re
import numpy as np
import pandas as pd
import netobs
import pfcases as pc

KINDS = ["unknown_buses", "unknown_carriers", "time_series", "static_power_attrs", "time_series_power_attrs", "nans_for_component_default_attrs",
         "zero_impedances", "zero_s_nom", "assets", "generators", "disconnected_buses", "investment_periods", "shapes", "dtypes"]
NOM = dict(Generator="p", Link="p", StorageUnit="p", Store="e", Line="s", Transformer="s")
DEPENDENT = {"Line": {"r", "x", "g", "b", "x_pu", "r_pu", "g_pu", "b_pu", "x_pu_eff", "r_pu_eff", "v_nom", "carrier"},
             "Transformer": {"r", "x", "g", "b", "s_nom", "tap_ratio", "tap_side", "phase_shift", "x_pu", "r_pu", "g_pu", "b_pu", "x_pu_eff", "r_pu_eff"},
             "ShuntImpedance": {"g_pu", "b_pu", "v_nom"}, "Link": {"carrier"}, "Store": {"carrier"}}
TYPES = {"float": "float64", "string": "object", "boolean": "bool", "int": "int64", "integer": "int64"}


def base(r):
    """a consistent network; names are unique over all classes"""
    import pypsa
    n = pypsa.Network()
    multi = r.random() < 0.25
    if multi:
        n.set_snapshots(pd.MultiIndex.from_product([[2020, 2030], range(2)]))
        if r.random() < 0.7:
            n.investment_periods = [2020, 2030]
    else:
        n.set_snapshots(range(r.choice([1, 3])))
    for c in ("AC", "wind", "gas"):
        n.add("Carrier", c, color=r.choice(["red", "#00ff00"]))
    buses = ["bus%d" % i for i in range(r.randint(2, 4))]
    n.add("Bus", buses, v_nom=r.choice([110.0, 380.0]))
    ser = lambda v: pd.Series(float(v), n.snapshots) if r.random() < 0.4 else float(v)
    for i, b in enumerate(buses):
        n.add("Generator", "gen%d" % i, bus=b, carrier=r.choice(["wind", "gas", ""]), p_nom=10, p_nom_extendable=r.random() < 0.4, p_max_pu=ser(0.8), p_min_pu=ser(r.choice([0, 0.1])))
    for i in range(r.randint(0, 2)):
        n.add("Load", "load%d" % i, bus=r.choice(buses), p_set=ser(5))
    for i in range(r.randint(0, 2)):
        a, b = r.sample(buses, 2)
        n.add("Line", "line%d" % i, bus0=a, bus1=b, x=0.1, r=0.01, s_nom=10, **({"type": "Al/St 240/40 2-bundle 220.0", "length": 10} if r.random() < 0.3 else {}))
    for i in range(r.randint(0, 2)):
        a, b = r.sample(buses, 2)
        n.add("Transformer", "trafo%d" % i, bus0=a, bus1=b, x=0.1, r=0.01, s_nom=r.choice([10, 100]))
    for i in range(r.randint(0, 2)):
        a, b = r.sample(buses, 2)
        kw = dict(bus2=r.choice(buses + [""])) if r.random() < 0.5 else {}
        if r.random() < 0.2:
            kw["bus10"] = r.choice(buses + [""])
        n.add("Link", "link%d" % i, bus0=a, bus1=b, carrier=r.choice(["gas", ""]), p_nom=5, p_nom_extendable=r.random() < 0.4, p_min_pu=ser(r.choice([0, -0.5])), **kw)
    if r.random() < 0.4:
        n.add("Store", "store0", bus=r.choice(buses), e_nom=4, e_min_pu=ser(0.1), e_nom_extendable=r.random() < 0.5)
    if r.random() < 0.4:
        n.add("StorageUnit", "unit0", bus=r.choice(buses), p_nom=4, p_nom_extendable=r.random() < 0.5, inflow=ser(1))
    if r.random() < 0.2:
        n.add("ShuntImpedance", "shunt0", bus=buses[0], b=0.1)
    if r.random() < 0.3:
        n.add("GlobalConstraint", "limit0", type="primary_energy", carrier_attribute="co2_emissions", sense="<=", constant=5, **({"investment_period": 2020} if multi else {}))
    if r.random() < 0.2:
        from shapely.geometry import Point
        n.add("Shape", "shape0", geometry=Point(0, 0), component=r.choice(["Bus", ""]), idx=buses[0])
    if r.random() < 0.15:
        n.generators["bus_note"] = "a note"
    if r.random() < 0.1 and len(n.links):
        n.links["bus_note"] = "a note"
    if r.random() < 0.2:
        n.determine_network_topology()
    return n


def pick(r, n, *classes):
    c = r.choice([k for k in classes if len(n.static(k))] or ["Generator"])
    return c, r.choice(list(n.static(c).index))


def inject(r, n, kind):
    if kind == "unknown_buses":
        c, m = pick(r, n, "Generator", "Load", "Line", "Transformer", "Link", "Store", "StorageUnit", "ShuntImpedance")
        cols = [k for k in n.static(c).columns if re.fullmatch(r"bus\d*", k)]
        n.static(c).loc[m, r.choice(cols)] = r.choice(["nowhere", "bus", "Bus0", ""] if r.random() < 0.7 else ["nowhere"])
    elif kind == "disconnected_buses":
        n.add("Bus", "lonely%d" % r.randint(0, 99))
    elif kind == "unknown_carriers":
        c, m = pick(r, n, "Generator", "Load", "Link", "Store", "StorageUnit", "Bus")
        n.static(c).loc[m, "carrier"] = r.choice(["coal", "Wind", "gas "])
    elif kind == "zero_impedances":
        c, m = pick(r, n, "Line", "Transformer")
        if c != "Generator":
            n.static(c).loc[m, r.choice(["x", "r"])] = 0.0
    elif kind == "zero_s_nom":
        if len(n.transformers):
            n.transformers.loc[r.choice(list(n.transformers.index)), "s_nom"] = 0.0
    elif kind == "time_series":
        c, m = pick(r, n, "Generator", "Load", "Link", "Store", "StorageUnit", "Bus", "Line")
        attrs = n.component_attrs[c]
        a = r.choice(list(attrs.index[attrs.varying & attrs.static]))
        df = n.dynamic(c)[a]
        if r.random() < 0.5:
            df = df.copy()
            df["ghost"] = 0.5
            n.dynamic(c)[a] = df
        else:
            ix = n.snapshots[:-1] if r.random() < 0.5 and len(n.snapshots) > 1 else pd.Index([7, 8, 9]) if r.random() < 0.5 else n.snapshots[::-1] if len(n.snapshots) > 1 else pd.Index([5])
            n.dynamic(c)[a] = pd.DataFrame({m: 0.5}, index=ix)
    elif kind == "static_power_attrs":
        c, m = pick(r, n, *NOM)
        p = NOM[c]
        if r.random() < 0.5:
            n.static(c).loc[m, [p + "_nom_min", p + "_nom_max"]] = [5.0, r.choice([5.0, 4.0, -1.0, 0.0])]
        else:
            n.static(c).loc[m, p + r.choice(["_nom_min", "_nom_max"])] = np.nan
    elif kind == "time_series_power_attrs":
        c, m = pick(r, n, "Generator", "Link", "StorageUnit", "Store")
        p = NOM[c]
        a, v = p + r.choice(["_max_pu", "_min_pu"]), r.choice([np.nan, np.inf, -np.inf, -0.5, 1.5, 0.9])
        if m in n.dynamic(c)[a] and len(n.dynamic(c)[a]):
            n.dynamic(c)[a].loc[n.dynamic(c)[a].index[r.randrange(len(n.dynamic(c)[a]))], m] = v
        else:
            n.static(c).loc[m, a] = v
    elif kind == "assets":
        c, m = pick(r, n, "Generator", "Link")
        n.static(c).loc[m, ["committable", NOM[c] + "_nom_extendable"]] = [True, r.random() < 0.8]
    elif kind == "generators":
        m = r.choice(list(n.generators.index))
        k = r.random()
        if k < 0.6:
            n.generators.loc[m, "committable"] = r.random() < 0.8
            n.generators.loc[m, "up_time_before"] = r.choice([0, 1, 2])
            n.generators.loc[m, "down_time_before"] = r.choice([0, 1, 2])
        else:
            n.generators.loc[m, "e_sum_min"] = 10.0
            n.generators.loc[m, "e_sum_max"] = r.choice([5.0, 10.0, 20.0])
    elif kind == "investment_periods":
        if "limit0" not in n.global_constraints.index:
            n.add("GlobalConstraint", "limit0", type="primary_energy", sense="<=", constant=5)
        n.global_constraints.loc["limit0", "investment_period"] = r.choice([2020, 2030, 2040])
    elif kind == "shapes":
        from shapely.geometry import Point
        n.add("Shape", "shape1", geometry=Point(0, 0), component=r.choice(["Bus", "Generator", "Load"]), idx=r.choice(["nowhere", "gen0", "bus0"]))
    elif kind == "nans":
        c, m = pick(r, n, "Generator", "Load", "Line", "Link", "Store", "StorageUnit", "Bus")
        a = r.choice([a for a in ("marginal_cost", "p_set", "s_max_pu", "efficiency", "v_nom", "sign", "x", "capital_cost", "ramp_limit_up", "overnight_cost", "inflow", "type") if a in n.static(c)])
        if a in n.dynamic(c) and m in n.dynamic(c)[a] and len(n.dynamic(c)[a]):
            n.dynamic(c)[a].loc[n.dynamic(c)[a].index[-1], m] = np.nan
        elif a != "type":
            n.static(c).loc[m, a] = np.nan
    elif kind == "dtypes":
        c, m = pick(r, n, "Generator", "Load", "Link", "Store", "StorageUnit")
        a = r.choice([a for a in ("p_nom", "marginal_cost", "sign", "e_nom", "build_year") if a in n.static(c)])
        n.static(c)[a] = n.static(c)[a].fillna(0).astype(r.choice([object, "int64", float]))


def observe(n):
    ev = dict(buses=[str(b) for b in n.buses.index], carriers=[str(c) for c in n.carriers.index], comps=[], limits=[], series=[], cells=[], types=[], shapes=[],
              multi=isinstance(n.snapshots, pd.MultiIndex), periods=[str(int(p)) for p in n.snapshots.unique(0)] if isinstance(n.snapshots, pd.MultiIndex) else [],
              gcperiods=[str(int(p)) for p in n.global_constraints.investment_period.dropna().unique()])
    num, sns = pc.num, n.snapshots
    ev["colourless"] = bool(sum(1 for c in n.carriers.color if pd.isnull(c) or c == ""))
    for c in sorted(n.all_components):
        st, dy = n.static(c), n.dynamic(c)
        if not len(st):
            continue
        attrs = n.component_attrs[c]
        ports = [k for k in st.columns if re.fullmatch(r"bus\d*", k)]
        p = NOM.get(c)
        aligned = {a: sns.equals(dy[a].index) for a in dy}
        for nm, row in st.iterrows():
            d = dict(cls=c, name=str(nm), ports=[], carrier="", f={"": "0"}, b={"": False})
            for k in ports:
                opt = c == "GlobalConstraint" or (len(k) > 3 and int(k[3:]) > 1)
                d["ports"].append(dict(attr=k, bus="" if pd.isnull(row[k]) else str(row[k]), optional=opt))
            if "carrier" in st and not pd.isnull(row.carrier):
                d["carrier"] = str(row.carrier)
            if c in ("Line", "Transformer"):
                d["f"].update(x=num(row.x), r=num(row.r), s_nom=num(row.s_nom))
            if p:
                d["f"].update(nom_min=num(row[p + "_nom_min"]), nom_max=num(row[p + "_nom_max"]))
                d["b"]["extendable"] = bool(row[p + "_nom_extendable"])
            if c in ("Generator", "Link"):
                d["b"]["committable"] = bool(row.committable)
            if c == "Generator":
                d["f"].update({a: num(row[a]) for a in ("up_time_before", "down_time_before", "e_sum_min", "e_sum_max")})
            if c == "Shape":
                if str(row.component) in n.all_components:
                    ev["shapes"].append(dict(name=str(nm), idx=str(row.idx), known=[str(x) for x in n.static(row.component).index]))
            if not c.endswith("Type"):
                ev["comps"].append(d)
            if p and c not in ("Line", "Transformer") and aligned[p + "_min_pu"] and aligned[p + "_max_pu"]:
                ev["limits"].append(dict(cls=c, name=str(nm), lo=pc.dense(n, c, p + "_min_pu", nm, sns), hi=pc.dense(n, c, p + "_max_pu", nm, sns)))
        for a in attrs.index[attrs.varying & attrs.static]:
            ev["series"].append(dict(cls=c, attr=a, aligned=bool(aligned[a]), cols=[str(k) for k in dy[a].columns]))
        for a in attrs.index:
            default, typ = attrs.default[a], attrs.type[a] if "type" in attrs else ""
            if not pd.isnull(default) and default != "":
                gap = (a in st and bool(st[a].isna().any())) or (a in dy and bool(dy[a].size) and bool(dy[a].isna().any().any()))
                ev["cells"].append(dict(cls=c, attr=a, missing=gap))
            want = next((v for k, v in TYPES.items() if str(typ).startswith(k) or str(typ) == "static or series" and False), None)
            t = str(np.dtype(attrs.dtype[a])) if "dtype" in attrs and attrs.dtype[a] is not None and a != "name" else None
            if t and a in st and attrs.static[a]:
                if attrs.type[a] == "geometry":
                    t = "geometry"
                ev["types"].append(dict(cls=c, attr=a, **{"is": str(st[a].dtype), "should": t}))
            if t and a in dy and dy[a].size:
                for k in dy[a].columns:
                    ev["types"].append(dict(cls=c, attr=a + "_t", **{"is": str(dy[a][k].dtype), "should": t}))
    return ev


def say(n, **kw):
    from pypsa.consistency import ConsistencyError
    try:
        n.consistency_check(**kw)
        return "silent"
    except ConsistencyError:
        return "refused"
    except Exception as x:
        return "%s: %s" % (type(x).__name__, str(x)[:200])


def content(n):
    a = netobs.absnet(n)
    for c, attrs in DEPENDENT.items():
        for row in a["comps"].get(c, {}).get("static", {}).values():
            for k in attrs:
                row.pop(k, None)
        a["comps"].get(c, {})["cols"] = []
    return {c: v for c, v in a["comps"].items()}, {k: v for k, v in a.items() if k != "comps"}


def scene(job):
    seed, i = job
    r = random.Random("%s/%s" % (seed, i))
    n = base(r)
    kinds = [] if r.random() < 0.1 else [r.choice(KINDS + ["nans", "nans", "time_series_power_attrs"]) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5]))]
    for k in kinds:
        before = {c: n.static(c).copy() for c in n.all_components if len(n.static(c)) > 1}
        inject(r, n, "nans" if k.startswith("nans") else k)
        if r.random() < 0.35:                                   # not one component but all of its class
            for c, old in before.items():
                st = n.static(c)
                for a in (old.columns.intersection(st.columns) if len(old) == len(st) and k not in ("shapes", "dtypes", "generators") else []):
                    new = [m for m in st.index if not (st.at[m, a] == old.at[m, a] or pd.isnull(st.at[m, a]) and pd.isnull(old.at[m, a]))]
                    if new:
                        st[a] = st.at[new[0], a]
    if r.random() < 0.15:
        n.carriers.loc["gas", "color"] = r.choice(["", None])
    dtypes = r.random() < 0.4
    before = content(n)
    text, logger = io.StringIO(), logging.getLogger("pypsa.consistency")
    h = logging.StreamHandler(text)
    off, old = logging.root.manager.disable, logger.level
    logging.disable(logging.NOTSET)
    logger.addHandler(h)
    logger.setLevel(logging.WARNING)
    prop, logger.propagate = logger.propagate, False
    try:
        with pd.option_context("display.max_rows", 1000, "display.max_colwidth", 1000):
            out = say(n, check_dtypes=dtypes)
    finally:
        logger.removeHandler(h)
        logger.setLevel(old)
        logger.propagate = prop
        logging.disable(off)
    after = content(n)
    ev = observe(n)
    words = set(re.findall(r"[A-Za-z0-9]+", text.getvalue()))
    ev.update(out="ok" if out == "silent" else out, quiet=not text.getvalue(), named=sorted(words & {c["name"] for c in ev["comps"]}), dtypes=dtypes,
              changed=[k for a, b in zip(before, after) for k in a if a[k] != b.get(k)])
    asked = sorted({k for k in kinds if k in KINDS} | set(r.sample(KINDS, 4)) | ({"nans_for_component_default_attrs"} if "nans" in kinds else set()))
    ev["said"] = {k: say(n, check_dtypes=dtypes, strict=[k]) for k in asked}
    ev["all"] = say(n, check_dtypes=dtypes, strict=r.choice([["all"], "all", ["all", "shapes"]]))
    try:
        n.consistency_check(strict=[r.choice(["nope", "unknown_bus", "zero"])])
        ev["odd"] = "accepted"
    except ValueError:
        ev["odd"] = "refused"
    from pypsa.consistency import ConsistencyError, plotting_consistency_check
    try:
        plotting_consistency_check(n, strict=["all"])
        ev["plot"] = "silent"
    except ConsistencyError:
        ev["plot"] = "refused"
    ev["case"] = dict(injected=kinds, dtypes=dtypes, out=ev["out"])
    return ev


def run(ctx):
    k = 0
    while k == 0 or (not ctx.quick and ctx.left() > 120 and not ctx.violations):
        evs = [e for e in ctx.run(scene, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(200, 3000))], label="consistency check") if e]
        ctx.judge("Consistency", evs, op="ConsistencyFails", cases=[e["case"] for e in evs], label="consistency check")
        ctx.cov["networks"] = ctx.cov.get("networks", 0) + len(evs)
        for kind in KINDS:
            ctx.cov["refused: " + kind] = ctx.cov.get("refused: " + kind, 0) + sum(e["said"].get(kind) == "refused" for e in evs)
        k += 1
    ctx.samples.append({x: evs[0][x] for x in ("case", "said", "comps") if x in evs[0]})
