"""Copies, slices and merges of random networks, followed by edits of either side."""
import random
import numpy as np
import pandas as pd
import vlib
from netobs import absnet, label
from histories import Editor
from check_c06 import tweak

KINDS = ["add"] * 6 + ["snapshots", "set", "set", "remove", "rename", "periods", "weights", "pweights"]


def network(r, steps=(2, 10), **kw):
    e = Editor(r, **kw)
    for _ in range(r.randint(*steps)):
        e.step(KINDS)
    if r.random() < 0.3:
        e.n.meta["a"] = {"c": [1, 2]}
    if r.random() < 0.2:
        e.n.name = "my network"
    if r.random() < 0.1:
        e.n.crs = 3035
    if r.random() < 0.15:
        e.n.add("Shape", "s", component="Bus", idx="a")
    types(r, e.n, "my type")
    if r.random() < 0.2:
        for c in ("Generator", "Link"):            # results
            for a in list(e.n.static(c).index)[:2]:
                e.n.dynamic(c)["p" if c == "Generator" else "p0"][a] = [float(i) for i in range(len(e.n.snapshots))]
    if r.random() < 0.15:
        try:
            e.n.determine_network_topology()
        except Exception:
            pass
    return e


def types(r, n, name):
    """Types of lines and transformers beyond the standard ones."""
    if r.random() < 0.2:
        n.add("LineType", name, r_per_length=0.125, x_per_length=0.375, c_per_length=9.5, i_nom=0.75, mounting="cs", references="x")
        if len(n.lines) and r.random() < 0.5:
            n.lines.loc[n.lines.index[0], "type"] = name
    if r.random() < 0.12:
        n.add("TransformerType", name, s_nom=40.0, v_nom_0=110.0, v_nom_1=20.0, vsc=10.5, vscr=0.25, tap_side=1, tap_min=-3, tap_max=4)
    if r.random() < 0.1:
        n.add("LineType", name + " 2", r_per_length=0.5)


def solved(r):
    import gencases, optlib, optcheck
    cs = gencases.random_case(r, r.choice(["balance", "invest", "storage"]))
    n = optlib.build(cs)
    try:
        with vlib.muted():
            n.optimize(solver_name="highs", log_to_console=False, solver_options=dict(time_limit=15, threads=1), multi_investment_periods=bool(len(n.periods)))
        n.model.solver_model = None
    except Exception:
        pass
    return n


def deep_edits(r, n, k=4):
    """Edits of any table, in place where possible."""
    e = Editor(r, n)
    for _ in range(k):
        tweak(r, e)
    if n.meta:
        key = sorted(n.meta)[0]
        if isinstance(n.meta[key], dict):
            n.meta[key]["later"] = 1
        elif isinstance(n.meta[key], list):
            n.meta[key].append(7)
    for c in sorted(n.all_components):
        st = n.static(c)
        if len(st) and r.random() < 0.5:
            col = r.choice([x for x in st.columns if st[x].dtype.kind == "f"] or [None])
            if col:
                st.iloc[0, st.columns.get_loc(col)] = 77.5
                st[col].values.flags.writeable and st[col].values.__setitem__(0, 78.5)
        for a in sorted(n.dynamic(c)):
            df = n.dynamic(c)[a]
            if len(df.columns) and len(df):
                df.iloc[0, 0] = 79.5
                v = df.values
                if v.flags.writeable and v.dtype.kind == "f":
                    v[-1, -1] = 80.5
    n.snapshot_weightings.iloc[0, 0] = 33.0


def sel_snaps(r, n):
    """Some of the snapshots in their order."""
    k = r.randint(1, len(n.snapshots))
    pos = sorted(r.sample(range(len(n.snapshots)), k))
    return n.snapshots[pos]


def copy_event(r, n):
    ev = dict(kind="copy", what="all", snaps=[], periods=[])
    kw = {}
    if r.random() < 0.7:
        ev["what"] = "part"
        q = r.random()
        snaps = n.snapshots
        if q < 0.75:
            snaps = sel_snaps(r, n)
            kw["snapshots"] = snaps if r.random() < 0.6 else list(snaps)
        if isinstance(n.snapshots, pd.MultiIndex):
            if q > 0.5:
                ps = sorted(r.sample(list(n.periods), r.randint(1, len(n.periods))))
                sub = snaps[snaps.get_level_values(0).isin(ps)]
                if len(sub):
                    snaps = sub
                    kw["investment_periods"] = ps
        elif q >= 0.75:
            kw["ignore_standard_types"] = True
        if not kw:
            kw["snapshots"] = snaps
        ev["snaps"] = [label(s) for s in snaps]
        ev["periods"] = [label(p) for p in (snaps.get_level_values(0).unique() if isinstance(snaps, pd.MultiIndex) else [])]
    ev["start"] = absnet(n)
    ev["how"] = {k: str(v)[:80] for k, v in kw.items()}
    try:
        m = n.copy(**kw)
        ev["out"] = "ok"
    except Exception as e:
        ev["out"], ev["error"] = "refused", "%s: %s" % (type(e).__name__, str(e)[:200])
        ev["startAfter"] = absnet(n)
        return ev
    ev["startAfter"], ev["result"] = absnet(n), absnet(m)
    ev["detached"] = bool("obj" not in m.sub_networks or all(getattr(o, "n", None) is not n for o in m.sub_networks.obj))
    if ev["what"] == "part" and not np.array_equal(np.array([type(s).__name__ for s in m.snapshots]), np.array([type(s).__name__ for s in n.snapshots][:1] * len(m.snapshots))):
        ev["result"]["bad"].append("snapshots of another type")
    deep_edits(r, n)
    ev["resultLater"] = absnet(m)
    ev["startMid"] = absnet(n)
    deep_edits(r, m)
    ev["startLater"] = absnet(n)
    return ev


def slice_event(r, n):
    buses = [b for b in n.buses.index if r.random() < 0.65]
    if not buses and len(n.buses):
        buses = [n.buses.index[0]]
    q = r.random()
    if q < 0.3:
        key, how = n.buses.index.isin(buses), "mask"
    elif q < 0.5:
        key, how = pd.Index(buses, dtype=object), "index"
    elif q < 0.65 and len(buses):
        buses = buses[:1]
        key, how = buses[0], "single"
    elif q < 0.75:
        i, j = sorted((r.randrange(len(n.buses)), r.randrange(len(n.buses))))
        buses = list(n.buses.index[i:j + 1])
        key, how = slice(buses[0], buses[-1]), "slice"
    else:
        key, how = list(buses), "list"
    snaps = n.snapshots
    full = key
    if r.random() < 0.6:
        q = r.random()
        pos = sorted(r.sample(range(len(snaps)), r.randint(1, len(snaps))))
        if q < 0.4:
            t = n.snapshots.isin(n.snapshots[pos])
            thow = "mask"
        elif q < 0.7:
            t, thow = n.snapshots[pos], "index"
        elif q < 0.85 or isinstance(n.snapshots, pd.MultiIndex):
            t, thow = list(n.snapshots[pos]), "list"
        else:
            pos = list(range(pos[0], pos[-1] + 1))
            t, thow = slice(n.snapshots[pos[0]], n.snapshots[pos[-1]]), "slice"
        snaps = n.snapshots[pos]
        full = (t, key)
        how += "/" + thow
    ev = dict(kind="slice", how=how, start=absnet(n), buses=list(map(str, buses)), snaps=[label(s) for s in snaps],
              periods=[label(p) for p in (snaps.get_level_values(0).unique() if isinstance(snaps, pd.MultiIndex) else [])])
    try:
        m = n[full]
        ev["out"] = "ok"
    except Exception as e:
        ev["out"], ev["error"] = "refused", "%s: %s" % (type(e).__name__, str(e)[:200])
        ev["result"] = ev["start"]
        ev["startAfter"] = absnet(n)
        return ev
    ev["startAfter"], ev["result"] = absnet(n), absnet(m)
    deep_edits(r, m)
    ev["startLater"] = absnet(n)
    return ev


def merge_event(r, n, seed):
    import pypsa
    # the other network: names prefixed, mostly on the same snapshots
    m = pypsa.Network()
    if r.random() < 0.92:
        m.set_snapshots(n.snapshots)
        m.snapshot_weightings = n.snapshot_weightings.copy() if r.random() < 0.93 else n.snapshot_weightings * 2
    if len(n.snapshots) == 1 and r.random() < 0.2:
        m = pypsa.Network()
    e = Editor(r, m)
    for _ in range(r.randint(1, 7)):
        e.step(["add"] * 6 + ["set", "set"])
    types(r, m, "other type")
    for c in ("Bus", "Carrier", "Generator", "Load", "Line", "Transformer", "Link", "Store", "StorageUnit", "ShuntImpedance"):
        if len(m.static(c)) and not (c in ("Bus", "Carrier", "Load") and r.random() < 0.12):
            m.rename_component_names(c, **{k: "o " + k for k in m.static(c).index})
    skip = []
    if r.random() < 0.35:
        skip = r.sample(["Bus", "Carrier", "Generator", "Load", "Shape"], r.randint(1, 2))
    time = r.random() < 0.85
    inplace = r.random() < 0.35
    plus = not skip and time and not inplace and r.random() < 0.3
    ev = dict(kind="merge", how="+" if plus else "merge", start=absnet(n), other=absnet(m), skip=skip, time=time, inplace=inplace)
    try:
        if plus:
            res = n + m
        else:
            res = n.merge(m, components_to_skip=skip or None, inplace=inplace, with_time=time)
            if inplace:
                res = n
        ev["out"] = "ok"
        ev["result"] = absnet(res)
    except Exception as x:
        ev["out"], ev["error"] = "refused", "%s: %s" % (type(x).__name__, str(x)[:200])
    ev["startAfter"], ev["otherAfter"] = absnet(n), absnet(m)
    if ev["out"] == "ok":
        deep_edits(r, res)
        ev["otherLater"], ev["startLater"] = absnet(m), absnet(n)
    return ev


def scene(job):
    seed, i, solve = job
    r = random.Random("%s/%s/%s" % (seed, i, solve))
    n = solved(r) if solve else network(r).n
    if not len(n.buses):
        n.add("Bus", "a")
    k = r.choice(["copy", "slice", "merge"])
    if k != "merge" and r.random() < 0.12:             # a standard type is changed, or missing
        t = r.choice(["line_types", "transformer_types"])
        if r.random() < 0.5:
            df = getattr(n, t)
            df.loc[df.index[r.randrange(3)], "i_nom" if t == "line_types" else "s_nom"] = 123.0
        else:
            n.remove("LineType" if t == "line_types" else "TransformerType", getattr(n, t).index[r.randrange(3)])
    if k == "copy":
        return copy_event(r, n)
    if k == "slice":
        return slice_event(r, n)
    return merge_event(r, n, seed)


def run(ctx):
    k = 0
    while k == 0 or (not ctx.quick and ctx.left() > 120 and not ctx.violations):
        jobs = [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i, 0) for i in range(ctx.n(380, 1500))]
        jobs += [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i, 1) for i in range(ctx.n(50, 300))]
        evs = [e for e in ctx.run(scene, jobs, label="network") if e is not None]
        ctx.judge("Networks", evs, cases=[{q: e[q] for q in ("kind", "how", "error", "snaps", "periods", "buses", "skip", "inplace") if q in e} for e in evs], label="network")
        for e in evs:
            d = ctx.cov.setdefault("calls", {})
            key = "%s %s %s" % (e["kind"], e["how"] if e["kind"] != "copy" else e["what"], e["out"])
            d[key] = d.get(key, 0) + 1
        k += 1
    ctx.samples.append({q: evs[0][q] for q in ("kind", "how", "out")})
