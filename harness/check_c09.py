"""Non-linear power flows of random networks: parts of the snapshots, distributed slack, several in a row."""
import random
import pandas as pd
import pfcases as pc


def weights(r, n, ev):
    """arguments for a distributed slack, and what the specification has to know of them"""
    gens = n.generators
    live = gens[gens.active]
    ev.update(distribute=False, mode="", given={"": "0"})
    if not len(live) or r.random() < 0.45:
        return {}
    mode = r.choice(["p_set", "p_nom", "p_nom_opt", "generators", "buses"])
    if mode in ("p_nom", "p_nom_opt"):
        if (gens[mode] == 0).all():
            return {}
        arg = mode
    elif mode == "p_set":
        p = n.get_switchable_as_dense("Generator", "p_set")
        if (p == 0).all().all():
            return {}
        arg = mode
    else:
        n.determine_network_topology()
        arg, given = {}, {}
        for sub in n.sub_networks.obj:
            g = sub.generators()
            names = list(g.index) if mode == "generators" and len(g) else list(sub.buses_i())
            names = [x for x in names if r.random() < 0.8] or names
            w = {x: r.choice([0, 1, 1, 2, 5]) for x in names}
            given.update({str(x): pc.num(v) for x, v in w.items()})
            arg[sub.name] = pd.Series(w, dtype=float) if r.random() < 0.5 else w
        ev["given"] = given or {"": "0"}
    ev.update(distribute=True, mode=mode)
    return dict(distribute_slack=True, slack_weights=arg)


def flow(n, r):
    want, arg = pc.some(r, n)
    ev = pc.inputs(n, want)
    kw = weights(r, n, ev)
    if r.random() < 0.15:
        kw["use_seed"] = True
    before = pc.tables(n, want)
    case = dict(how="pf(%s)" % ("" if arg is None else "part" if len(want) < len(n.snapshots) else "all"), kw={k: str(v) for k, v in kw.items()})
    try:
        got = n.pf(*([] if arg is None else [arg]), **kw)
    except Exception as x:
        ev["out"], ev["error"] = "refused", "%s: %s" % (type(x).__name__, str(x)[:300])
        return dict(ev, case=dict(case, error=ev["error"]))
    pc.results(n, ev, want, True)
    ev["kept"] = pc.kept(before, pc.tables(n, want))
    conv = got["converged"]
    ev["unreported"] = []
    if list(conv.index) != list(want) or set(conv.columns) != set(n.sub_networks.index) or conv.isna().any().any():
        ev["unreported"] = ["?"]
    ev["conv"] = {str(b): [bool(conv[n.buses.sub_network[b]].iloc[k]) for k in range(len(want))] for b in n.buses.index}
    return dict(ev, case=case)


def scene(job):
    seed, i = job
    r = random.Random("%s/%s" % (seed, i))
    n = pc.network(r, ac=True)
    evs = []
    for k in range(r.choice([1, 1, 2, 3])):
        evs.append(flow(n, r))
        for _ in range(r.randint(0, 2)):
            pc.mutate(r, n)
    return evs


def run(ctx):
    k = 0
    while k == 0 or (not ctx.quick and ctx.left() > 120 and not ctx.violations):
        evs = [e for es in ctx.run(scene, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(320, 2000))], label="power flow") for e in es or []]
        ctx.judge("PowerFlow", evs, op="PfFails", cases=[e["case"] for e in evs], label="power flow")
        ctx.cov["power flows"] = ctx.cov.get("power flows", 0) + len(evs)
        ctx.cov["distributed slack"] = ctx.cov.get("distributed slack", 0) + sum(e["distribute"] for e in evs)
        flat = [c for e in evs if "conv" in e for v in e["conv"].values() for c in v]
        ctx.cov["converged buses and snapshots"] = ctx.cov.get("converged buses and snapshots", 0) + sum(flat)
        ctx.cov["not converged"] = ctx.cov.get("not converged", 0) + len(flat) - sum(flat)
        k += 1
    ctx.samples.append({x: evs[0][x] for x in ("case", "buses", "branches", "ones") if x in evs[0]})
