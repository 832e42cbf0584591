"""Pairs of networks related by single edits, compared in both directions."""
import random
import vlib
from netobs import absnet, layout
from histories import Editor

KINDS = ["add"] * 5 + ["snapshots", "set", "set", "remove", "rename", "periods", "weights", "pweights"]


def ask(f):
    try:
        r = f()
        return "yes" if r is True else "no" if r is False else "other " + type(r).__name__
    except Exception as e:
        return "raised"


def strict(x, y):
    try:
        return "yes" if x.equals(y, log_mode="strict") else "no"
    except ValueError as e:
        return "no"
    except Exception:
        return "raised"


def event(x, y, edits, alike=True, how=""):
    ev = dict(kind="equality", how=how, edits=edits, x=absnet(x), y=absnet(y), layout=layout(x) == layout(y), solvedAlike=alike)
    ev.update(xy=ask(lambda: x == y), yx=ask(lambda: y == x), xx=ask(lambda: x == x), yy=ask(lambda: y == y), strict=strict(x, y))
    ev.update(xAfter=absnet(x), yAfter=absnet(y))
    return ev


def tweak(r, e):
    """One edit of a single datum of the network of an editor."""
    n = e.n
    k = r.choice(["cell", "cell", "cell", "tiny", "series", "op", "op", "meta", "name", "crs", "weight", "period weight", "static to series", "label", "nothing", "shape", "type"])
    if k in ("cell", "tiny"):
        cs = [c for c in ("Bus", "Generator", "Load", "Line", "Link", "Store", "Carrier", "StorageUnit") if len(n.static(c))]
        if not cs:
            return k + " none"
        c = r.choice(cs)
        st = n.static(c)
        cols = [q for q in st.columns if st[q].dtype.kind == "f"] if k == "tiny" or r.random() < 0.5 else [q for q in st.columns if q != "obj"]
        name, col = r.choice(list(st.index)), r.choice(cols)
        v = st.at[name, col]
        if k == "tiny":
            st.at[name, col] = v * (1 + 1e-9) if v == v and abs(v) < 1e300 and v else 1e-12
        elif st[col].dtype.kind == "f":
            st.at[name, col] = r.choice([1.5, float("nan"), float("inf"), 0.0])
        elif st[col].dtype.kind == "b":
            st.at[name, col] = not v
        elif st[col].dtype.kind in "iu":
            st.at[name, col] = v + 1
        else:
            st.at[name, col] = r.choice(["", "zz"])
        return "%s %s %s" % (k, c, col)
    if k == "series":
        opts = [(c, a) for c in n.all_components for a, df in n.dynamic(c).items() if len(df.columns)]
        if not opts:
            return "series none"
        c, a = r.choice(sorted(opts))
        df = n.dynamic(c)[a]
        i, j = r.randrange(len(df)), r.randrange(len(df.columns))
        old = df.iloc[i, j]
        df.iloc[i, j] = r.choice([9.75, float("nan"), old * (1 + 1e-10) if old == old else 1.0])
        return "series %s %s" % (c, a)
    if k == "static to series":
        if not len(n.generators):
            return k
        g = n.generators.index[0]
        n.generators_t.p_max_pu[g] = float(n.generators.at[g, "p_max_pu"])
        return k
    if k == "op":
        e.step(["add", "remove", "rename", "snapshots", "periods", "weights", "set"])
        return e.steps[-1]["op"]["kind"] + " " + e.steps[-1]["out"]
    if k == "meta":
        n.meta[r.choice(["a", "b"])] = r.choice([1, "x", [1, 2], {"c": 1}, None, 1.0, {"c": [1]}, [2], {}, []])
        return k
    if k == "name":
        n.name = r.choice(["", "n1", "n2"])
        return k
    if k == "crs":
        n.crs = r.choice([4326, 3035, 25832])
        return k
    if k == "weight":
        n.snapshot_weightings.iloc[r.randrange(len(n.snapshots)), r.randrange(3)] += r.choice([1, 1e-9])
        return k
    if k == "period weight" and len(n.investment_period_weightings):
        n.investment_period_weightings.iloc[0, r.randrange(2)] = r.choice([2.0, 1.0 + 1e-9, 1.0])
        return k
    if k == "type":
        c = r.choice(["LineType", "TransformerType"])
        if r.random() < 0.5:
            n.static(c).loc[n.static(c).index[r.randrange(2)], "f_nom"] = r.choice([50.0, 60.0])
        elif "own" in n.static(c).index:
            n.remove(c, "own")
        else:
            n.add(c, "own", f_nom=r.choice([50.0, 60.0]))
        return k
    if k == "shape":
        n.add("Shape", r.choice(["s1", "s2"]), component="Bus", idx="a", type=r.choice(["", "t"]))
        return k
    return "nothing"


def pair(job):
    seed, i = job
    r = random.Random("%s/%s" % (seed, i))
    e = Editor(r)
    for _ in range(r.randint(1, 8)):
        e.step(KINDS)
    for _ in range(r.choice([0, 0, 1, 2])):
        tweak(r, e)
    if r.random() < 0.5:
        y, how = e.n.copy(), "copy"
    else:                      # the same history, replayed on a new network
        state = r.getstate()
        r2 = random.Random("%s/%s" % (seed, i))
        e2 = Editor(r2)
        for _ in range(r2.randint(1, 8)):
            e2.step(KINDS)
        for _ in range(r2.choice([0, 0, 1, 2])):
            tweak(r2, e2)
        y, how = e2.n, "replay"
        r.setstate(state)
    f = Editor(r, y)
    edits = [tweak(r, f) for _ in range(r.choice([0, 1, 1, 1, 2]))]
    a, b = (e.n, f.n) if r.random() < 0.5 else (f.n, e.n)
    return event(a, b, edits, how=how)


def analysed(job):
    """Networks of which one or both were optimised or analysed."""
    import gencases, optlib, optcheck
    seed, i = job
    r = random.Random("%s/s/%s" % (seed, i))
    cs = gencases.random_case(r, r.choice(["balance", "invest", "storage"]))
    x, y = optlib.build(cs), optlib.build(cs)
    acts = []
    for n in (x, y):
        act = r.choice(["none", "topology", "lpf", "optimize", "optimize", "model"])
        try:
            if act == "topology":
                n.determine_network_topology()
            elif act == "lpf":
                n.lpf()
            elif act == "optimize":
                with vlib.muted():
                    n.optimize(solver_name="highs", log_to_console=False, solver_options=dict(time_limit=15, threads=1), multi_investment_periods=bool(len(n.periods)))
            elif act == "model":
                n.optimize.create_model(multi_investment_periods=bool(len(n.periods)))
        except Exception:
            act += " failed"
        acts.append(act)
    if r.random() < 0.25:
        try:
            if hasattr(x, "model") and hasattr(x.model, "solver_model"):
                x.model.solver_model = None
            y, acts = x.copy(), acts[:1] * 2
        except TypeError:
            pass
    edits = []
    if r.random() < 0.3:
        edits = [tweak(r, Editor(r, y))]
    return event(x, y, edits, alike=acts[0] == acts[1] and "failed" not in acts[0], how="/".join(acts))


def run(ctx):
    k = 0
    while k == 0 or (not ctx.quick and ctx.left() > 120 and not ctx.violations):
        jobs = [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(520, 1500))]
        evs = [e for e in ctx.run(pair, jobs, label="equality") if e is not None]
        evs += [e for e in ctx.run(analysed, jobs[:ctx.n(90, 400)], label="equality") if e is not None]
        ctx.judge("Networks", evs, cases=[dict(how=e["how"], edits=e["edits"]) for e in evs], label="equality")
        for e in evs:
            d = ctx.cov.setdefault("pairs", {})
            key = "%s %s" % ("unedited" if not e["edits"] else "edited", e["xy"])
            d[key] = d.get(key, 0) + 1
        k += 1
    ctx.samples.append({q: evs[0][q] for q in ("how", "edits", "xy", "yx")})
