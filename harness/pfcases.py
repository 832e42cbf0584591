"""Random networks for power flows, and what is observed of one (spec/PowerFlow.tla, spec/Electrical.tla)."""
import random
import numpy as np
import pandas as pd
import netobs
from vlib import q

ONES = ["Generator", "Load", "StorageUnit", "Store"]


def network(r, ac=False, steps=None, meshed=0.5, types=0.25, dead=0.12, big=False):
    """ac: parameters for the non-linear power flow; dead: share of inactive components"""
    import pypsa
    n = pypsa.Network()
    T = steps or r.randint(1, 3)
    if r.random() < 0.15 and T > 1:
        n.set_snapshots(pd.MultiIndex.from_product([[2020, 2030], range(T)]))
    else:
        n.set_snapshots(r.choice([range(T), pd.date_range("2030-01-01", periods=T, freq="h"), ["s%d" % i for i in range(T)]]))
    sns = n.snapshots
    on = lambda: r.random() >= dead
    islands = r.choice([1, 1, 1, 2, 2, 3])
    k = 0
    for isl in range(islands):
        B = r.choice(([3, 4, 5] if big else [1, 2, 3, 4, 5, 6]) if isl == 0 else [1, 2, 3])
        carrier = "AC" if (ac and B > 1) or r.random() < 0.75 else r.choice(["DC", "DC", "heat"])
        vs = r.choice([[110.0], [380.0], [220.0, 110.0], [380.0, 110.0], [20.0, 0.4], [1.0]])
        if ac:
            vs = r.choice([[110.0], [380.0], [220.0, 110.0], [380.0, 220.0]])
        names = []
        for b in range(B):
            nm = r.choice("abcz") + str(k)
            k += 1
            names.append(nm)
            n.add("Bus", nm, v_nom=r.choice(vs), carrier=carrier, v_mag_pu_set=r.choice([1, 1, 1.02, 0.98, 1.05]))
        order = names[:]
        r.shuffle(order)
        pairs = [(order[i], r.choice(order[:i])) for i in range(1, B) if r.random() < 0.95]
        for _ in range(r.randint(0, B) if r.random() < meshed * 2 else 0):
            if B > 1:
                pairs.append(tuple(r.sample(names, 2)) if r.random() < 0.7 or not pairs else r.choice(pairs))
        for a, b in pairs:
            branch(r, n, a, b, ac, types, on())
    buses = list(n.buses.index)

    def series(lo, hi, share=0.35):
        v = lambda: round(r.uniform(lo, hi), r.choice([0, 1, 3]))
        return pd.Series([v() for _ in sns], sns) if r.random() < share else v()
    s = 30 if ac else 100
    for cls, most in (("Generator", 5), ("Load", 5), ("StorageUnit", 1), ("Store", 1)):
        for i in range(r.randint(0, most)):
            kw = dict(bus=r.choice(buses), p_set=series(0 if cls == "Generator" else (-s / 4 if cls != "Load" else 0), s), active=on())
            if ac:
                kw["q_set"] = series(-8, 8)
            if cls == "Generator":
                kw.update(control=r.choice(["PQ", "PQ", "PV", "Slack"]), p_nom=r.choice([0, 10, 50, 100]))
                n.add(cls, "%s%d" % (r.choice("gx"), i), **kw)
                n.generators.loc[n.generators.index[-1], "p_nom_opt"] = r.choice([0, 10, 20, 90])
                continue
            if cls in ("StorageUnit", "Store") and r.random() < 0.3:
                kw["sign"] = -1
            n.add(cls, "%s%d" % (cls[0].lower() + r.choice("kq"), i), **kw)
    for i in range(r.choice([0, 0, 0, 1, 2])):
        b = r.choice(buses)
        v2 = n.buses.v_nom[b] ** 2
        n.add("ShuntImpedance", "h%d" % i, bus=b, g=r.choice([0, 3, 7]) / v2, b=r.choice([0, -5, 6]) / v2, active=on())
    for i in range(r.choice([0, 0, 1, 2])):
        kw = dict(bus0=r.choice(buses), bus1=r.choice(buses), p_set=series(-s / 2, s / 2), efficiency=series(0.5, 1), active=on())
        if r.random() < 0.4:
            kw.update(bus2=r.choice(buses), efficiency2=series(0.1, 0.5))
        n.add("Link", "k%d" % i, **kw)
    return n


def branch(r, n, a, b, ac=False, types=0.25, active=True):
    dc = n.buses.carrier[a] == "DC" if not ac else False
    same = n.buses.v_nom[a] == n.buses.v_nom[b]
    if same and r.random() < 0.75:
        kw = dict(length=r.choice([1.0, 10.0, 33.0]), num_parallel=r.choice([1, 2, 1.5]))
        if r.random() < types and n.buses.v_nom[a] > 15:
            ts = n.line_types.index
            kw["type"] = r.choice([t for t in ts if t in ("Al/St 240/40 4-bundle 380.0", "Al/St 240/40 2-bundle 220.0", "149-AL1/24-ST1A 110.0", "N2XS(FL)2Y 1x300 RM/35 64/110 kV")] or list(ts))
        else:
            sc = n.buses.v_nom[a] ** 2 / 110 ** 2 if ac else 1
            kw.update(x=r.choice([2.0, 5.0, 12.0]) * sc, r=r.choice([0.3, 1.0, 2.5]) * sc)
            if ac:
                kw.update(b=r.choice([0, 1e-5, 3e-5]) / sc, g=r.choice([0, 0, 1e-6]) / sc)
        cls = "Line"
    else:
        cls = "Transformer"
        kw = dict(model=r.choice(["t", "pi"]), num_parallel=r.choice([1, 2, 1.5]))
        if not dc and r.random() < types:   # a phase shift has no meaning in DC
            kw.update(type=r.choice(["100 MVA 220/110 kV", "160 MVA 380/110 kV", "40 MVA 110/20 kV"]), tap_position=r.choice([0, 0, 3, -4]))
        else:
            kw.update(x=r.choice([0.08, 0.1, 0.2]), r=r.choice([0.003, 0.01, 0.02]), s_nom=r.choice([100.0, 250.0]), tap_ratio=r.choice([1, 1, 1.02, 0.95]), tap_side=r.choice([0, 1]),
                      phase_shift=0 if dc else r.choice([0, 0, 5, -30]), g=r.choice([0, 0, 0.002]), b=r.choice([0, 0, -0.01]))
    names = n.static(cls).index
    while True:
        nm = r.choice("lmuw") + str(r.randint(0, 99))
        if nm not in names:
            break
    n.add(cls, nm, bus0=a, bus1=b, active=active, **kw)


def types(n):
    f = lambda t, cols: {c: num(t[c]) if c not in ("tap_side",) else int(t[c]) for c in cols}
    lt = {k: f(t, ["r_per_length", "x_per_length", "c_per_length", "f_nom"]) for k, t in n.line_types.iterrows() if k in set(n.lines.type)}
    tt = {k: f(t, ["s_nom", "vsc", "vscr", "pfe", "i0", "phase_shift", "tap_side", "tap_neutral", "tap_step"]) for k, t in n.transformer_types.iterrows() if k in set(n.transformers.type)}
    return lt, tt


def num(x):
    return netobs.num(float(x)) if not pd.isnull(x) else "nan"


def branches(n):
    out = []
    for cls in ("Line", "Transformer"):
        for nm, row in n.static(cls).iterrows():
            d = dict(cls=cls, name=str(nm), bus0=str(row.bus0), bus1=str(row.bus1), on=bool(row.active), type=str(row.type), v_nom=num(n.buses.v_nom[row.bus0]))
            for a in ("r", "x", "g", "b", "s_nom", "num_parallel"):
                d[a] = num(row[a])
            if cls == "Line":
                d["length"] = num(row.length)
            else:
                d.update(tap_ratio=num(row.tap_ratio), tap_side=int(row.tap_side), tap_position=num(row.tap_position), phase_shift=num(row.phase_shift), model=str(row.model))
            out.append(d)
    return out


def dense(n, cls, attr, name, sns):
    """the documented input: the series of a component, or its static value"""
    dyn = n.dynamic(cls).get(attr)
    if dyn is not None and name in dyn:
        return [num(v) for v in dyn[name].loc[sns]]
    return [num(n.static(cls)[attr][name])] * len(sns)


def inputs(n, sns):
    ev = dict(out="ok", K=len(sns), branches=branches(n), ones=[], shunts=[], links=[], gens=[])
    ev["ltypes"], ev["ttypes"] = types(n)
    ev["buses"] = [dict(name=str(b), v_nom=num(n.buses.v_nom[b]), carrier=str(n.buses.carrier[b]), vset=dense(n, "Bus", "v_mag_pu_set", b, sns)) for b in n.buses.index]
    ev["gens"] = [dict(name=str(g), bus=str(row.bus), control=str(row.control), on=bool(row.active)) for g, row in n.generators.iterrows()]
    for cls in ONES:
        for nm, row in n.static(cls).iterrows():
            d = dict(cls=cls, name=str(nm), bus=str(row.bus), sign=num(row.sign), on=bool(row.active), pset=dense(n, cls, "p_set", nm, sns), qset=dense(n, cls, "q_set", nm, sns))
            if cls == "Generator":
                d.update(p_nom=num(row.p_nom), p_nom_opt=num(row.p_nom_opt))
            ev["ones"].append(d)
    for nm, row in n.shunt_impedances.iterrows():
        ev["shunts"].append(dict(name=str(nm), bus=str(row.bus), sign=num(row.sign), on=bool(row.active), g=num(row.g), b=num(row.b), v_nom=num(n.buses.v_nom[row.bus])))
    for nm, row in n.links.iterrows():
        ports = []
        for c in n.links.columns:
            if c.startswith("bus") and c != "bus0" and row[c] != "":
                i = c[3:]
                ports.append(dict(port=i, bus=str(row[c]), eff=dense(n, "Link", "efficiency" + ("" if i == "1" else i), nm, sns)))
        ev["links"].append(dict(name=str(nm), on=bool(row.active), bus0=str(row.bus0), pset=dense(n, "Link", "p_set", nm, sns), ports=ports))
    return ev


def results(n, ev, sns, ac):
    def get(cls, attr, name):
        df = n.dynamic(cls).get(attr)
        return [num(v) for v in df[name].loc[sns]] if df is not None and name in df else ["nan"] * len(sns)
    for b in ev["branches"]:
        for a in ("p0", "p1") + (("q0", "q1") if ac else ()):
            b[a] = get(b["cls"], a, b["name"])
    for c in ev["ones"]:
        for a in ("p",) + (("q",) if ac else ()):
            c[a] = get(c["cls"], a, c["name"])
    for c in ev["shunts"]:
        for a in ("p",) + (("q",) if ac else ()):
            c[a] = get("ShuntImpedance", a, c["name"])
    for l in ev["links"]:
        l["p0"] = get("Link", "p0", l["name"])
        for p in l["ports"]:
            p["p"] = get("Link", "p" + p["port"], l["name"])
    names = [b["name"] for b in ev["buses"]]
    ev["v"] = {b: get("Bus", "v_mag_pu", b) for b in names}
    ev["ang"] = {b: get("Bus", "v_ang", b) for b in names}
    ev["bp"] = {b: get("Bus", "p", b) for b in names}


def tables(n, sns):
    """results at the snapshots which are not asked for"""
    out = {}
    other = [i for i, s in enumerate(n.snapshots) if s not in set(sns)]
    if other:
        for cls in ONES + ["Bus", "Line", "Transformer", "Link", "ShuntImpedance"]:
            for attr, df in n.dynamic(cls).items():
                for c in df.columns:
                    out["%s %s %s" % (cls, attr, c)] = " ".join(num(v) for v in df[c].iloc[other])
    return out


def kept(before, after):
    return [dict(what=k, was=before[k], **{"is": after.get(k, "gone")}) for k in sorted(before)]


def mutate(r, n):
    """a change between two power flows"""
    k = r.random()
    cls = r.choice(["Generator", "Load", "Line", "Transformer", "Link", "StorageUnit"])
    st = n.static(cls)
    if not len(st):
        return
    nm = r.choice(list(st.index))
    if k < 0.45:
        st.loc[nm, "active"] = not st.active[nm]
    elif k < 0.8 and "p_set" in st:
        st.loc[nm, "p_set"] = r.randint(0, 40)
        if nm in n.dynamic(cls).p_set:
            n.dynamic(cls).p_set = n.dynamic(cls).p_set.drop(columns=nm)
    elif "x" in st and st.type[nm] == "":
        st.loc[nm, "x"] = st.x[nm] * r.choice([0.5, 2])
    else:
        n.remove(cls, nm)


def some(r, n):
    """snapshots to ask for, and the argument which asks for them"""
    sns = n.snapshots
    k = r.random()
    if k < 0.5 or len(sns) == 1:
        return (list(sns), None) if k < 0.35 else (list(sns), sns)
    if k < 0.7 and not isinstance(sns, pd.MultiIndex):
        s = r.choice(list(sns))
        return [s], s
    i = r.randint(1, len(sns) - 1)
    part = sns[:i] if r.random() < 0.5 else sns[i:]
    return list(part), part
