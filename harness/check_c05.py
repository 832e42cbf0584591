"""Queries for attribute values, activity and bounds on random networks."""
import random
import numpy as np
import pandas as pd
import vlib
from netobs import absnet, label, val
from check_c03 import network
from vlib import q

VARY = {"Generator": ["p_max_pu", "p_min_pu", "marginal_cost", "p_set", "efficiency"], "Load": ["p_set", "q_set"], "Line": ["s_max_pu"], "Transformer": ["s_max_pu"],
        "Link": ["p_max_pu", "p_min_pu", "efficiency", "marginal_cost"], "Store": ["e_max_pu", "e_min_pu", "standing_loss"],
        "StorageUnit": ["p_max_pu", "p_min_pu", "inflow", "standing_loss"], "Bus": ["v_mag_pu_set"]}
LIFE = ["Generator", "Line", "Transformer", "Link", "Store", "StorageUnit", "Load", "ShuntImpedance"]
NOM = {"Generator": "p_nom", "Line": "s_nom", "Transformer": "s_nom", "Link": "p_nom", "Store": "e_nom", "StorageUnit": "p_nom"}
NUMS = [0.0, 1.0, 0.5, -1.0, 0.25, 3.0, 100.0]


def prepare(r):
    """A network with several components of every class, out of alphabetical order."""
    n = network(r, steps=(1, 5), classes=["Bus", "Carrier"]).n
    if not len(n.buses):
        n.add("Bus", ["b", "a"])
    if r.random() < 0.45 and not isinstance(n.snapshots, pd.MultiIndex):
        n.set_investment_periods(r.choice([[2020, 2030], [2025], [2030, 2040, 2050]]))
    T = len(n.snapshots)
    for cls in VARY:
        k = r.randint(0, 5)
        names = r.sample(["g%d" % i for i in range(6)] + ["a", "z", "2", "10", "B"], k)
        if cls == "Bus" or not k:
            continue
        kw = {}
        for b in ("bus", "bus0", "bus1"):
            if b in n.components[cls]["attrs"].index:
                kw[b] = [r.choice(list(n.buses.index)) for _ in names]
        n.add(cls, names, **kw)
    for cls, attrs in VARY.items():
        st, names = n.static(cls), list(n.static(cls).index)
        if not names:
            continue
        for a in attrs:
            st[a] = [r.choice(NUMS) for _ in names]
            some = [x for x in names if r.random() < 0.4]
            r.shuffle(some)
            old = n.dynamic(cls)[a]
            n.dynamic(cls)[a] = pd.DataFrame({x: [r.choice(NUMS) for _ in range(T)] for x in some}, index=old.index, columns=pd.Index(some, name=old.columns.name, dtype=object), dtype=float)
        if "active" in st:
            st["active"] = [r.random() < 0.75 for _ in names]
        if "build_year" in st:
            st["build_year"] = [r.choice([0, 2010, 2020, 2025, 2030, 2035, 2050]) for _ in names]
            st["lifetime"] = [r.choice([0.0, 5.0, 10.0, 10.5, 15.0, 25.0, float("inf")]) for _ in names]
        if cls in NOM:
            st[NOM[cls] + "_extendable"] = [r.random() < 0.5 for _ in names]
        if "committable" in st:
            st["committable"] = [r.random() < 0.5 for _ in names]
        if cls == "StorageUnit":
            st["max_hours"] = [r.choice([1.0, 2.5, 6.0]) for _ in names]
    return n


def cells(df):
    return [[q(float(z)) for z in row] for row in df.values]


def query(n, r):
    base = absnet(n)
    cls = r.choice([c for c in VARY if len(n.static(c))])
    kind = r.choice(["dense"] * 4 + ["iter"] + ["bounds"] * 2 + ["active"] * 2 + ["mask"] * 2 + ["choice"])
    c = base["comps"][cls]
    k = r.randint(0 if kind == "mask" else 1, len(n.snapshots))
    pos = r.sample(range(len(n.snapshots)), max(1, k)) if r.random() < 0.3 else sorted(r.sample(range(len(n.snapshots)), max(1, k)))
    sns = n.snapshots[pos]
    how = r.choice(["none", "index", "list", "slice"])
    if how == "none":
        sns, arg = n.snapshots, None
    elif how == "index":
        arg = sns
    elif how == "list":
        arg = list(sns)
    else:
        pos = list(range(min(pos), max(pos) + 1))
        sns = n.snapshots[pos[0]:pos[-1] + 1]
        arg = sns
    names = list(n.static(cls).index)
    some = None if r.random() < 0.4 else r.sample(names, r.randint(1, len(names)))
    ev = dict(kind=kind, cls={x: c[x] for x in ("names", "static", "series")}, snaps=base["snaps"], asked=[label(s) for s in sns], out="ok", how=how,
              some=[str(s) for s in (some if some is not None else names)])
    ev["class"] = cls
    try:
        if kind == "dense":
            a = r.choice(VARY[cls])
            df = n.get_switchable_as_dense(cls, a, *( [arg] if how != "none" else []), **({"inds": pd.Index(some) if r.random() < 0.6 else some} if some is not None else {}))
            ev.update(attr=a, cols=[str(x) for x in df.columns], rows=[label(s) for s in df.index], table=cells(df), wantcols=[])
        elif kind == "iter":
            a = r.choice(VARY[cls])
            from pypsa.descriptors import get_switchable_as_iter
            rows = list(get_switchable_as_iter(n, cls, a, sns, **({"inds": some} if some is not None else {})))
            cols = [str(x) for x in rows[0].index]
            ev.update(attr=a, cols=cols, rows=[label(s) for s in sns], table=[[q(float(s[x])) for x in s.index] for s in rows], wantcols=[])
            if any([str(x) for x in s.index] != cols for s in rows):
                ev["cols"] = []
        elif kind == "bounds":
            from pypsa.descriptors import get_bounds_pu, nominal_attrs
            if cls not in NOM:
                return None
            attr = r.choice(["p_dispatch", "p_store", "state_of_charge"]) if cls == "StorageUnit" else None
            lo, up = get_bounds_pu(n, cls, sns, *( [pd.Index(some)] if some is not None else []), **({"attr": attr} if attr else {}))
            want = [str(x) for x in (some if some is not None else names)]
            assert list(lo.columns) == list(up.columns) and list(lo.index) == list(up.index)
            nom = NOM[cls]
            ev.update(attr=attr or "", min=nom.replace("nom", "min_pu"), max=nom.replace("nom", "max_pu"), cols=[str(x) for x in lo.columns], rows=[label(s) for s in lo.index],
                      lower=cells(lo), upper=cells(up), table=[], wantcols=want)
        elif kind == "active":
            cls = r.choice([x for x in LIFE if len(n.static(x))] or ["Bus"])
            if cls == "Bus":
                return None
            c = base["comps"][cls]
            ps = list(map(int, n.periods))
            p = None if not ps or r.random() < 0.2 else r.choice([r.choice(ps), r.sample(ps, r.randint(1, len(ps))), pd.Index(ps)])
            m = n.component(cls).get_active_assets(p) if r.random() < 0.5 else n.get_active_assets(cls, p)
            ev["class"] = cls
            ev.update(cls={x: c[x] for x in ("names", "static")}, periods=[] if p is None else [str(int(z)) for z in np.atleast_1d(p)], cols=[str(x) for x in m.index], row=[bool(z) for z in m])
        elif kind == "mask":
            from pypsa.descriptors import get_activity_mask
            if cls not in LIFE:
                return None
            multi = bool(len(n.periods)) and r.random() < 0.7
            n._multi_invest = int(multi)
            df = get_activity_mask(n, cls, arg, pd.Index(some) if some is not None else None)
            ev.update(cols=[str(x) for x in df.columns], rows=[label(s) for s in df.index], table=[[bool(z) for z in row] for row in df.values],
                      wantcols=[str(x) for x in (some if some is not None else names)], periodOf=[str(int(s[0])) if multi else "" for s in sns])
            n._multi_invest = 0
        else:
            from pypsa.descriptors import get_extendable_i, get_non_extendable_i, get_committable_i
            if cls not in NOM:
                return None
            ev.update(nom=NOM[cls], ext=list(map(str, get_extendable_i(n, cls))), fix=list(map(str, get_non_extendable_i(n, cls))))
            if "committable" in n.static(cls):
                ev["com"] = list(map(str, get_committable_i(n, cls)))
    except Exception as x:
        ev["out"], ev["error"] = "refused", "%s: %s" % (type(x).__name__, str(x)[:300])
    return ev


def scene(job):
    seed, i = job
    r = random.Random("%s/%s" % (seed, i))
    n = prepare(r)
    if not any(len(n.static(c)) for c in VARY):
        return []
    return [e for e in (query(n, r) for _ in range(8)) if e is not None]


def run(ctx):
    k = 0
    while k == 0 or (not ctx.quick and ctx.left() > 120 and not ctx.violations):
        evs = [e for es in ctx.run(scene, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(300, 1500))], label="query") for e in es or []]
        ctx.judge("Attributes", evs, cases=[{x: e[x] for x in ("kind", "class", "how", "error", "attr") if x in e} for e in evs], label="query")
        for e in evs:
            d = ctx.cov.setdefault("queries", {})
            d[e["kind"] + " " + e["class"]] = d.get(e["kind"] + " " + e["class"], 0) + 1
        k += 1
    ctx.samples.append({x: evs[0][x] for x in ("kind", "class", "how", "asked")})
