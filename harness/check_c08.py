"""Linear power flows of random networks, repeatedly and for parts of the snapshots."""
import random
import pfcases as pc


def flow(n, r, first):
    want, arg = pc.some(r, n)
    ev = pc.inputs(n, want)
    before = pc.tables(n, want)
    how = "lpf(%s)" % ("" if arg is None else "part" if len(want) < len(n.snapshots) else "all")
    try:
        n.lpf(*([] if arg is None else [arg]))
    except Exception as x:
        ev["out"], ev["error"] = "refused", "%s: %s" % (type(x).__name__, str(x)[:300])
        return dict(ev, how=how)
    pc.results(n, ev, want, False)
    ev["kept"] = pc.kept(before, pc.tables(n, want))
    ev["how"] = how
    return ev


def scene(job):
    seed, i = job
    r = random.Random("%s/%s" % (seed, i))
    n = pc.network(r)
    evs = []
    for k in range(r.randint(1, 3)):
        evs.append(flow(n, r, k == 0))
        for _ in range(r.randint(0, 2)):
            pc.mutate(r, n)
    return evs


def run(ctx):
    k = 0
    while k == 0 or (not ctx.quick and ctx.left() > 120 and not ctx.violations):
        evs = [e for es in ctx.run(scene, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(400, 2500))], label="linear power flow") for e in es or []]
        ctx.judge("PowerFlow", evs, op="LpfFails", cases=[{x: e[x] for x in ("how", "error") if x in e} for e in evs], label="linear power flow")
        ctx.cov["power flows"] = ctx.cov.get("power flows", 0) + len(evs)
        k += 1
    ctx.samples.append({x: evs[0][x] for x in ("how", "buses", "branches", "ones") if x in evs[0]})
