"""Unit commitment: exhaustive schedules of every small unit, random systems, design model."""
import itertools
from optcheck import *


def unit_case(kind, mu, md, upb, dnb, hist, T):
    h = len(hist)
    cs = new_case(T + h)
    cs["sel"] = list(range(h + 1, h + T + 1))
    cs["carriers"] = [carrier("")] if False else []
    cs["buses"] = [bus("b0"), bus("b1")]
    u = dict(committable=True, min_up_time=mu, min_down_time=md, up_time_before=upb, down_time_before=dnb, p_nom=8, p_min_pu=0.5, marginal_cost=2,
             start_up_cost=5, shut_down_cost=3, stand_by_cost=1)
    if kind == "gens":
        cs["gens"].append(gen("u", "b0", **u))
    else:
        cs["links"].append(link("u", "b0", [("b1", 0.5)], **u))
    for b in cs["buses"]:
        cs["gens"].append(gen("slack" + b["id"], b["id"], p_nom=1000, p_min_pu=-1, marginal_cost=1))
    for a in cs[kind]:
        if a["id"] == "u":
            a["hist_status"] = list(hist)
            a["hist_p"] = 8 * hist[-1] if hist else 0
    for a in cs["gens"]:
        if a["id"] != "u":
            a["hist_status"], a["hist_p"] = [0] * h, 0
    return cs


def schedule(cs, kind, st, spurious):
    x = blank(cs)
    a = [a for a in cs[kind] if a["id"] == "u"][0]
    pre = {"gens": "g", "links": "l"}[kind]
    h = cs["sel"][0] - 1
    prev = a["hist_status"][h - 1] if h else (1 if a["up_time_before"] > 0 else 0)
    for k, s in enumerate(st):
        p = 4.0 + (k % 3) * 2 if s else 0.0
        x[pre + "p"]["u"][k] = p
        x[pre + "st"]["u"][k] = float(s)
        x[pre + "su"]["u"][k] = float(max(0, s - prev))
        x[pre + "sd"]["u"][k] = float(max(0, prev - s))
        prev = s
        x["gp"]["slackb0"][k] = -p if kind == "gens" else p
        x["gp"]["slackb1"][k] = 0.0 if kind == "gens" else -0.5 * p
    if spurious is not None:                       # hide one transition
        q = x[pre + ("su" if spurious[0] else "sd")]["u"]
        q[spurious[1]] = 0.0
    return x


def observe_unit(job):
    kind, mu, md, upb, dnb, hist, T = job
    cs = unit_case(kind, mu, md, upb, dnb, hist, T)
    xs = []
    for st in itertools.product((0, 1), repeat=T):
        xs.append(schedule(cs, kind, st, None))
    for st in itertools.product((0, 1), repeat=T):      # one start or stop that happens but is not charged
        x = xs[int("".join(map(str, st)), 2)]
        pre = {"gens": "g", "links": "l"}[kind]
        hit = [(1, k) for k in range(T) if x[pre + "su"]["u"][k]] + [(0, k) for k in range(T) if x[pre + "sd"]["u"][k]]
        if hit and (sum(st) + mu + md) % 4 == 0:
            xs.append(schedule(cs, kind, st, hit[(mu + md) % len(hit)]))
    ev, _ = observe(cs, xs)
    return ev, cs


def observe_linear(job):
    """The linearised unit commitment is a relaxation: at whole decisions it accepts what the automaton accepts."""
    seed, i, m = job
    r = random.Random("%s/linear/%d" % (seed, i))
    cs = random_case(r, "uc")
    for key in ("gens", "links"):
        for a in cs[key]:
            if not a["committable"]:
                continue
            if r.random() < 0.8:
                a["shut_down_cost"] = a["start_up_cost"]
            # without a ramp limit nothing is documented about the limits of starts and stops
            for lim, at in (("ramp_limit_up", "ramp_limit_start_up"), ("ramp_limit_down", "ramp_limit_shut_down")):
                if r.random() < 0.5:
                    a["ser"].pop(lim, None)
                    a[lim] = r.choice([0.25, 0.5, 0.75])
                    a[at] = r.choice([0.5, 0.75, 1.0])
                elif a[lim] != a[lim] or lim in a["ser"]:
                    a[at] = 1.0
                if a[lim] == a[lim] and r.random() < 0.4:
                    a["ser"][lim] = [r.choice([0.25, 0.5, 0.75, 1.0]) for _ in range(cs["T"])]
    pre = calibrate(r, cs)
    xs = pre + [Sampler(cs, r, bad=0 if j < m * 2 // 3 else 0.08).sample() for j in range(m - len(pre))]
    n = build(cs)
    for key, cls in (("gens", "Generator"), ("links", "Link")):     # a static value beside a series has no effect
        for a in cs[key]:
            for lim in ("ramp_limit_up", "ramp_limit_down"):
                if lim in a["ser"] and r.random() < 0.5:
                    n.static(cls).loc[a["id"], lim] = 0.25
    ev, rm = observe(cs, xs, n=n, linearized_unit_commitment=True)
    for x in vertices(RealModel(cs), r, 5):        # extreme schedules of the model with whole decisions
        adm, why, obj, scale = rm.admits(x, tol=1e-5)
        ev["cands"].append(dict(x=x, adm=adm, why=why or "-", obj=obj, scale=scale, priced=adm, vertex=True))
    return ev, cs


def run(ctx):
    T = ctx.n(5, 6)
    ctx.mc("UCDesign", "SPECIFICATION DSpec\nCONSTANTS T=%d MaxMin=3 MaxBefore=4\nINVARIANTS Equivalent RunAgrees TypeOK Splits\nCHECK_DEADLOCK FALSE\n" % ctx.n(6, 8))
    jobs = []
    for kind in ("gens", "links"):
        for mu, md in itertools.product(range(4), range(4)):
            for upb, dnb in [(i, 0) for i in range(4)] + [(0, i) for i in range(1, 4)]:
                if ctx.quick and kind == "links" and (mu + 2 * md + upb + dnb) % 3:
                    continue
                jobs.append((kind, mu, md, upb, dnb, (), T))
            for hist in itertools.product((0, 1), repeat=ctx.n(2, 3)):
                upb = (mu + sum(hist)) % 3
                if ctx.quick and (mu + md + hist[0]) % 2 == (kind == "gens"):
                    continue
                jobs.append((kind, mu, md, upb, 0 if upb else 1 + md % 2, hist, T - 1))
    got = [g for g in ctx.run(observe_unit, jobs, limit=200, label="schedules of one unit") if g is not None]
    judge_events(ctx, [g[0] for g in got], [brief(g[1]) for g in got], "all schedules of one unit")
    ctx.cov["units enumerated with all schedules"] = len(got)
    jobs = [("%s/%d" % (ctx.prop, ctx.seed), i, 16) for i in range(ctx.n(60, 200))]
    got = [g for g in ctx.run(observe_linear, jobs, limit=200, label="linearised unit commitment") if g is not None]
    judge_events(ctx, [g[0] for g in got], [brief(g[1]) for g in got], "linearised unit commitment")
    standard(ctx, "uc", models=ctx.n(90, 130), sols=ctx.n(48, 64))
