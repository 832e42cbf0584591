"""Contingency analyses of random meshed networks, and the factors they are made of."""
import random
import pfcases as pc


def scene(job):
    seed, i = job
    r = random.Random("%s/%s" % (seed, i))
    evs = []
    n = pc.network(r, meshed=0.9, dead=r.choice([0, 0, 0.15]), big=True)
    for turn in range(r.choice([1, 1, 2])):
        evs.append(analysis(r, n))
        for _ in range(r.randint(0, 2)):
            pc.mutate(r, n)
    return evs


def analysis(r, n):
    sns = n.snapshots
    k = r.random()
    s = sns[0] if k < 0.6 else r.choice(list(sns))
    args = [] if k < 0.3 else [list(sns)] if k < 0.4 else [sns] if k < 0.6 else [s]
    if getattr(sns, "nlevels", 1) > 1 and k >= 0.3:
        args, s = [sns], sns[0]
    ev = pc.inputs(n, [s])
    keys = [(b["cls"], b["name"]) for b in ev["branches"]]
    ix = {x: j + 1 for j, x in enumerate(keys)}
    asked = list(keys)
    kw = {}
    if r.random() < 0.4 and keys:
        asked = r.sample(keys, r.randint(1, len(keys)))
        kw["branch_outages"] = [b[1] if b[0] == "Line" and r.random() < 0.3 else b for b in asked]
    case = dict(how="lpf_contingency(%s)" % ", ".join(str(type(a).__name__) for a in args), kw=str(kw))
    ev.update(asked=[], cols=[], base=[], factors=[])
    if not keys:
        return None
    try:
        p0 = n.lpf_contingency(*args, **kw)
    except Exception as x:
        ev["out"], ev["error"] = "refused", "%s: %s" % (type(x).__name__, str(x)[:300])
        return dict(ev, case=dict(case, error=ev["error"]))
    pc.results(n, ev, [s], False)
    ev["asked"] = [ix[x] for x in (asked if kw else [tuple(x) for x in n.passive_branches().index])]
    cols = [c for c in p0.columns if not (isinstance(c, str) and c == "base")]
    flow = lambda c: [pc.num(p0[c][x]) if x in p0.index else "nan" for x in keys]
    ev["base"] = flow("base")
    ev["cols"] = [dict(outage=ix.get(tuple(c) if isinstance(c, tuple) else ("Line", c), 0), flow=flow(c)) for c in cols]
    for sub in n.sub_networks.obj:
        act = sub.branches_i(active_only=True)
        if len(act):
            if r.random() < 0.5:
                sub.calculate_PTDF()
                sub.calculate_BODF(skip_pre=r.random() < 0.5)
            mat = lambda M: [[pc.num(v) for v in row] for row in M]
            ev["factors"].append(dict(buses=[str(b) for b in sub.buses_o], slack=str(sub.slack_bus), branches=[ix[tuple(x)] for x in act], ptdf=mat(sub.PTDF), bodf=mat(sub.BODF)))
    return dict(ev, case=case)


def run(ctx):
    k = 0
    while k == 0 or (not ctx.quick and ctx.left() > 120 and not ctx.violations):
        evs = [e for es in ctx.run(scene, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(300, 2000))], label="contingencies") for e in es or [] if e]
        ctx.judge("PowerFlow", evs, op="ContingencyFails", cases=[e["case"] for e in evs], label="contingencies")
        for name, f in (("analyses", lambda e: 1), ("outages", lambda e: len(e["cols"])), ("factor matrices", lambda e: len(e["factors"]))):
            ctx.cov[name] = ctx.cov.get(name, 0) + sum(map(f, evs))
        k += 1
    ctx.samples.append({x: evs[0][x] for x in ("case", "buses", "branches", "cols") if x in evs[0]})
