"""Random networks, their topology after every edit, and their matrices."""
import random
import numpy as np
import pandas as pd
import vlib
from vlib import q


def prepare(r):
    import pypsa
    n = pypsa.Network()
    B = r.randint(1, 8)
    names = r.sample(["b%d" % i for i in range(12)] + ["a", "z", "10", "2"], B)
    n.add("Bus", names, carrier=[r.choice(["AC"] * 6 + ["DC", "gas"]) for _ in names])
    if r.random() < 0.4:
        n.set_investment_periods(r.choice([[2020, 2030], [2030, 2040, 2050]]))
    for _ in range(r.randint(0, 10)):
        branch(r, n)
    for _ in range(r.randint(0, 3)):
        a, b = r.choice(names), r.choice(names)
        n.add("Link", "l%d" % len(n.links), bus0=a, bus1=b)
    for i in range(r.randint(0, 6)):
        n.add("Generator", "g%d" % r.randint(0, 99) + str(i), bus=r.choice(names), p_nom=r.choice([1, 10, 100]), control=r.choice(["PQ", "PQ", "PV", "Slack"]),
              active=r.random() < 0.85)
    return n


def branch(r, n):
    names = list(n.buses.index)
    if len(names) < 2:
        return
    if len(n.lines) + len(n.transformers) and r.random() < 0.25:
        st = n.lines if len(n.lines) else n.transformers
        k = r.choice(list(st.index))
        a, b = st.bus0[k], st.bus1[k]
        if r.random() < 0.5:
            a, b = b, a
    else:
        a, b = r.sample(names, 2)
    cls = r.choice(["Line", "Line", "Transformer"])
    kw = dict(bus0=a, bus1=b, x=r.choice([0.1, 0.5, 1.0]), r=0.1, active=r.random() < 0.88)
    if cls == "Transformer":
        kw["s_nom"] = 100
    if len(n.periods):
        kw.update(build_year=r.choice([2010, 2025, 2030, 2045]), lifetime=r.choice([10, 20, 40, float("inf")]))
    elif r.random() < 0.1:
        kw.update(build_year=2030)
    i = 0
    while True:
        nm = "%s%d" % (r.choice("qkm"), r.randint(0, 99))
        if nm not in n.static(cls).index:
            break
    n.add(cls, nm, **kw)


def observe(n, period, skip):
    def on(row):
        return bool(row.active) and (period is None or (row.build_year <= period < row.build_year + row.lifetime))
    ev = dict(kind="topology", out="ok", period=period is not None, skip=bool(skip), buses=[dict(name=str(b), carrier=str(c)) for b, c in n.buses.carrier.items()])
    ev["branches"], rows = [], []
    for cls in ("Line", "Transformer"):
        for nm, row in n.static(cls).iterrows():
            ev["branches"].append({"cls": cls, "name": str(nm), "from": str(row.bus0), "to": str(row.bus1), "on": on(row)})
            rows.append((cls, nm))
    ev["gens"] = [dict(name=str(g), bus=str(row.bus), control=str(row.control), on=bool(row.active)) for g, row in n.generators.iterrows()]
    try:
        n.determine_network_topology(period, **(dict(skip_isolated_buses=True) if skip else {}))
    except Exception as x:
        ev["out"], ev["error"] = "refused", "%s: %s" % (type(x).__name__, str(x)[:300])
        return ev
    sub = lambda v: "nan" if pd.isnull(v) else str(v)
    ev["busSub"] = {str(b): sub(v) for b, v in n.buses.sub_network.items()}
    ev["branchSub"] = [sub(n.static(c).sub_network[k]) for c, k in rows]
    ev["links"] = [sub(v) for v in n.links["sub_network"]] if "sub_network" in n.links else []
    ev["busControl"] = {str(b): str(v) for b, v in n.buses.control.items()}
    ev["busGen"] = {str(b): str(v) for b, v in n.buses.generator.items()}
    ev["genControl"] = {str(b): str(v) for b, v in n.generators.control.items()}
    ev["subs"] = []
    for s in n.sub_networks.index:
        o = n.sub_networks.obj[s]
        C = o.C.toarray()
        ev["subs"].append(dict(name=str(s), slack=str(o.slack_bus), gen=str(o.slack_generator or ""), pvs=list(map(str, o.pvs)), pqs=list(map(str, o.pqs)), order=list(map(str, o.buses_o)),
                               branches=[[c, str(k)] for c, k in o.branches_i()], C=[[int(z) if z == int(z) else 9 for z in row] for row in C], ncycles=int(C.shape[1]),
                               carrier=str(n.sub_networks.carrier[s])))
        if C.shape[0] != len(o.branches_i()):
            ev["subs"][-1]["C"] = [[9] * C.shape[1] for _ in o.branches_i()]
        if str(n.sub_networks.slack_bus[s]) != str(o.slack_bus):
            ev["subs"][-1]["slack"] = "(inconsistent)"
    return ev


def matrices(r, n):
    out = []
    whole = r.random() < 0.5 or not len(n.sub_networks) or "obj" not in n.sub_networks
    obj = n if whole else n.sub_networks.obj[r.choice(list(n.sub_networks.index))]
    classes = r.choice([["Line", "Transformer"], ["Line"], ["Line", "Transformer", "Link"], ["Link"]]) if whole else list(n.passive_branch_components)
    buses = list(n.buses.index) if whole else list(obj.buses_i())
    kw = dict(branch_components=classes) if whole or r.random() < 0.5 else {}
    if r.random() < 0.3:
        r.shuffle(buses)
        order = dict(busorder=pd.Index(buses))
    else:
        order = {}
    br = []
    for c in (n.iterate_components(classes) if whole else obj.iterate_components(classes)):
        for nm, row in c.static.iterrows():
            if row.active:
                br.append({"from": str(row.bus0), "to": str(row.bus1), "key": "%s/%s" % (c.name, nm)})
    for what in ("incidence", "adjacency", "graph"):
        ev = dict(kind="matrix", what=what, out="ok", buses=list(map(str, buses)), branches=br, whole=whole)
        try:
            if what == "incidence":
                ev["K"] = [[int(z) for z in row] for row in obj.incidence_matrix(**kw, **order).toarray()]
            elif what == "adjacency":
                ev["A"] = [[int(z) for z in row] for row in obj.adjacency_matrix(**kw, **order).toarray()]
            else:
                g = obj.graph(**kw, include_inactive=False)
                ev["nodes"] = list(map(str, g.nodes()))
                ev["edges"] = [dict(u=str(u), v=str(v), key="%s/%s" % k) for u, v, k in g.edges(keys=True)]
        except Exception as x:
            ev["out"], ev["error"] = "refused", "%s: %s" % (type(x).__name__, str(x)[:200])
        out.append(ev)
    return out


def scene(job):
    seed, i = job
    r = random.Random("%s/%s" % (seed, i))
    n = prepare(r)
    evs = []
    for _ in range(r.randint(1, 4)):
        period = r.choice(list(map(int, n.periods)) + [None]) if len(n.periods) else None
        evs.append(observe(n, period, r.random() < 0.15))
        if r.random() < 0.5:
            evs += matrices(r, n)
        for _ in range(r.randint(1, 2)):
            k = r.random()
            cls = r.choice(["Line", "Transformer"])
            st = n.static(cls)
            if k < 0.3:
                branch(r, n)
            elif k < 0.55 and len(st):
                st.loc[r.choice(list(st.index)), "active"] = r.random() < 0.5
            elif k < 0.75 and len(st):
                n.remove(cls, r.choice(list(st.index)))
            elif k < 0.9 and len(n.generators):
                g = r.choice(list(n.generators.index))
                n.generators.loc[g, "control"] = r.choice(["PQ", "PV", "Slack"])
                if r.random() < 0.3:
                    n.generators.loc[g, "active"] = not n.generators.active[g]
            elif len(n.generators):
                n.remove("Generator", r.choice(list(n.generators.index)))
    return evs


def run(ctx):
    # the partition built branch by branch is that of reachability; the number of independent cycles
    for nb, e in ((3, ctx.n(3, 5)), (4, ctx.n(2, 4))):
        ctx.mc("TopologyDesign", "SPECIFICATION Spec\nCONSTANTS NB=%d MaxE=%d\nINVARIANTS Partition Order Cycles_\nCHECK_DEADLOCK FALSE\n" % (nb, e), timeout=600)
    k = 0
    while k == 0 or (not ctx.quick and ctx.left() > 120 and not ctx.violations):
        evs = [e for es in ctx.run(scene, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(350, 2500))], label="topology") for e in es or []]
        ctx.judge("Topology", evs, op="AnyFails", cases=[{x: e[x] for x in ("kind", "what", "error", "whole", "skip") if x in e} for e in evs], label="topology")
        ctx.cov["topologies"] = ctx.cov.get("topologies", 0) + sum(e["kind"] == "topology" for e in evs)
        ctx.cov["sub-networks with cycles"] = ctx.cov.get("sub-networks with cycles", 0) + sum(s["ncycles"] > 0 for e in evs if e["kind"] == "topology" and e["out"] == "ok" for s in e["subs"])
        k += 1
    ctx.samples.append({x: evs[0][x] for x in ("kind", "buses", "branches", "busSub") if x in evs[0]})
