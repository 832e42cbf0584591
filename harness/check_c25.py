"""Expressions over the variables of a model mean what the statistics of a solution mean."""
import random
import numpy as np
import pandas as pd
import vlib, optcheck
from optlib import *
from check_c24 import network, table, arguments, rows_of, quarters, NOMS, BRANCH, COSTS

EXPR = ["capacity", "capex", "opex", "transmission", "energy_balance", "supply", "withdrawal", "curtailment", "operation"]
MEANS = {"capacity": "optimal_capacity"}


def model(r):
    """A model, and arbitrary values of its variables written into the tables of results."""
    while True:
        n, multi = network(r)
        if not multi:
            break
    for c, nom in NOMS.items():
        st = n.static(c)
        if r.random() < 0.75:
            for i in st.index:
                st.loc[i, nom + "_extendable"] = bool(r.random() < 0.6 and not st.get("committable", pd.Series(False, index=st.index))[i])
    for i in n.links.index[r.random() < 0.3 and len(n.links) > 0:]:
        if r.random() < 0.4:                                   # efficiency over time
            n.links_t.efficiency[i] = [r.choice([0.5, 1, 0.25]) for _ in n.snapshots]
    n.optimize.create_model()
    value = {}
    for name, v in n.model.variables.items():
        for l in np.ravel(v.labels.values):
            value[int(l)] = quarters(r)
    value[-1] = 0.0

    def frame(name):
        lab = n.model.variables[name].labels
        dim = [d for d in lab.dims if d != "snapshot"]
        if not dim or "snapshot" not in lab.dims:
            return pd.Series([value[int(l)] for l in np.ravel(lab.values)], index=lab.coords[lab.dims[0]].values)
        lab = lab.transpose("snapshot", dim[0])
        return pd.DataFrame([[value[int(l)] for l in row] for row in lab.values], index=n.snapshots, columns=lab.coords[dim[0]].values)
    have = n.model.variables
    zero = lambda c: pd.DataFrame(0.0, index=n.snapshots, columns=n.static(c).index)
    var = lambda c, a: frame("%s-%s" % (c, a)).reindex(columns=n.static(c).index).fillna(0.0) if "%s-%s" % (c, a) in have else zero(c)
    for c, nom in NOMS.items():
        st = n.static(c)
        st[nom + "_opt"] = st[nom].astype(float)
        if "%s-%s" % (c, nom) in have:
            s = frame("%s-%s" % (c, nom))
            st.loc[s.index, nom + "_opt"] = s
    n.generators_t.p = var("Generator", "p")
    n.stores_t.p, n.stores_t.e = var("Store", "p"), var("Store", "e")
    for a in ("p_dispatch", "p_store", "state_of_charge"):
        n.storage_units_t[a] = var("StorageUnit", a)
    n.storage_units_t.p = n.storage_units_t.p_dispatch - n.storage_units_t.p_store
    n.loads_t.p = n.get_switchable_as_dense("Load", "p_set")
    k = {}
    for c, a in (("Line", "s"), ("Transformer", "s"), ("Link", "p")):
        p0 = var(c, a)
        n.dynamic(c)["p0"] = p0
        for port in n.components[c].ports:
            if port == "0":
                e = pd.DataFrame(-1.0, index=n.snapshots, columns=p0.columns)
            elif c == "Link":
                e = n.get_switchable_as_dense(c, "efficiency" if port == "1" else "efficiency" + port)
            else:
                e = pd.DataFrame(1.0, index=n.snapshots, columns=p0.columns)
            k[c, port] = e
            if port != "0":
                n.dynamic(c)["p" + port] = -p0 * e
    ev = table(n, False)
    ev["linear"] = True
    for a in ev["assets"]:
        if a["c"] == "Link":
            a["s"]["p_max_pu"] = [qs(v) for v in n.get_switchable_as_dense("Link", "p_max_pu")[a["id"]]]
        a["k"] = {p: [qs(v) for v in k[a["c"], p][a["id"]]] for p in a["ports"]} if a["c"] in BRANCH else {"": []}
    return n, value, ev


def evaluate(expr, value, n, aggt):
    """Rows of the value of an expression."""
    ds = expr.data
    if not expr.coord_dims and not ds.vars.size:
        return []
    dim = [d for d in ds.const.dims if d != "snapshot"][0]
    order = ([dim] if aggt != "none" else [dim, "snapshot"])
    v, c = ds.vars.transpose(*order, "_term").values, ds.coeffs.transpose(*order, "_term").values
    k = ds.const.transpose(*order).values
    val = np.vectorize(lambda l: value[int(l)], otypes=[float])(v) if v.size else np.zeros(v.shape)
    used = v != -1
    tot = (np.where(used, val, 0.0) * np.where(used, c, 0.0)).sum(axis=-1) + np.where(np.isnan(k) & (used.any(axis=-1)), 0.0, k)
    tot = np.where(np.isnan(k) & ~used.any(axis=-1), 0.0, tot)
    keys = [tuple(map(str, g)) if isinstance(g, tuple) else (str(g),) for g in ds.indexes[dim]]
    return [dict(key=list(g), vals=[qs(float(z)) for z in np.atleast_1d(t)]) for g, t in zip(keys, tot)]


def job(j):
    seed, i, calls = j
    r = random.Random("%s/%s" % (seed, i))
    with vlib.muted():
        n, value, base = model(r)
    if not base["assets"]:
        return None
    out = []
    for _ in range(calls):
        name = r.choice(EXPR)
        stat = MEANS.get(name, name)
        while True:
            kw, m = arguments(r, n, False, stat if stat != "operation" else "curtailment")
            if "bus_carrier" in kw and isinstance(kw["bus_carrier"], str) and kw["bus_carrier"] not in set(n.buses.carrier):
                continue
            if m["comps"] and kw.get("groupby", "") is not False and not callable(kw.get("groupby")) and "aggregate_groups" not in kw and m["ports"] == ["*"]:
                break
        for a in ("drop_zero", "round", "cost_types", "aggregate_time", "direction"):
            kw.pop(a, None)
        m.update(stat=stat, costtypes=["marginal_cost"], direction="none", keepzero=False, aggt="sum", tol="1e-4")
        if name in ("opex", "transmission", "energy_balance", "supply", "withdrawal", "curtailment", "operation") and (r.random() < 0.4 or name == "operation"):
            v = r.choice(["sum", "mean", False])
            kw["aggregate_time"], m["aggt"] = v, v or "none"
        if "groupby" not in kw:
            m["by"] = ["carrier", "bus_carrier"] if name in ("supply", "withdrawal", "energy_balance") else ["carrier"]
        m["comps"] = [c for c in m["comps"] if c != "ShuntImpedance"]
        if name in ("supply", "withdrawal", "energy_balance") and "at_port" not in kw:
            m["atport"] = "all"
        elif "at_port" not in kw:
            m["atport"] = "all" if name == "capacity" and "bus_carrier" in kw else "first"
        if name == "energy_balance" and r.random() < 0.3:
            kw["kind"] = m["direction"] = r.choice(["supply", "withdrawal"])
        case = dict(network=i, call="n.optimize.expressions.%s(%s)" % (name, ", ".join("%s=%r" % z for z in kw.items())))
        ev = dict(base, **m)
        if name in ("capacity", "capex") and r.random() < 0.3:      # decided capacities only
            kw["include_non_extendable"] = False
            case["call"] += " decided only"
            ev["assets"] = [dict(a, v=dict(a["v"], **({NOMS[a["c"]] + "_opt": "0"} if a["c"] in NOMS and not n.static(a["c"]).at[a["id"], NOMS[a["c"]] + "_extendable"] else {}))) for a in base["assets"]]
        try:
            with vlib.muted():
                x = getattr(n.optimize.expressions, name)(**kw)
            rows = evaluate(x, value, n, m["aggt"])
            ev.update(out="ok", rows=rows)
        except Exception as x:
            ev.update(out="refused", rows=[])
            case["error"] = "%s: %s" % (type(x).__name__, str(x)[:300])
        out.append((ev, case))
    return out


def run(ctx):
    def expressions(k):
        got = [x for g in ctx.run(job, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i, 8) for i in range(ctx.n(60, 300))], limit=200, label="expressions") if g for x in g]
        ctx.judge("Statistics", [g[0] for g in got], op="StatisticFails", cases=[g[1] for g in got], label="expressions")
        ctx.cov["expressions"] = ctx.cov.get("expressions", 0) + len(got)
        for e, _ in got:
            ctx.cov[e["stat"]] = ctx.cov.get(e["stat"], 0) + 1
        ctx.samples[:] = [dict(call=got[0][1], rows=got[0][0]["rows"][:4])]
    optcheck.rounds(ctx, [expressions])
