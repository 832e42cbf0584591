"""Random optimisation cases. `focus` decides which parts of the system are exercised."""
import math
from optlib import *


def series(r, cs, vals, p=0.4):
    return [r.choice(vals) for _ in range(cs["T"])] if r.random() < p else None


def maybe_ser(r, cs, a, attr, vals, p=0.35):
    v = series(r, cs, vals, p)
    if v is not None:
        a["ser"][attr] = v
        if r.random() < 0.5:
            a[attr] = r.choice(vals)


def skeleton(r, focus, kind=""):
    multi = kind in ("growth", "periods") or kind not in ("window", "long") and r.random() < {"balance": 0.2, "storage": 0.35, "uc": 0.0, "ramp": 0.12, "kvl": 0.35, "loss": 0.2, "glc": 0.6, "cost": 0.4, "invest": 0.5}[focus]
    if multi:
        years = r.choice([[2020, 2030], [2020, 2030], [1, 2], [2020, 2030, 2045]])
        cs = new_case(T=r.choice([1, 2, 2, 3]) if len(years) < 3 else r.choice([1, 2]), periods=years)
        for p in cs["py"]:
            p["wo"], p["wy"] = r.choice([1, 2, 10]), r.choice([1, 5, 10])
    else:
        lo, hi = {"uc": (3, 6), "ramp": (3, 5), "storage": (2, 5)}.get(focus, (1, 3))
        cs = new_case(T=r.randint(max(lo, 4), hi + 1) if kind in ("window", "long") else r.randint(lo, hi))
        if r.random() < 0.3:
            cs["dates"] = True
    for w in ("wo", "wg", "ws"):
        if r.random() < 0.6:
            cs[w] = [r.choice([1, 2, 3, 0.5]) for _ in range(cs["T"])]
    if focus in ("uc", "ramp") and cs["T"] >= 4 and (kind == "window" or r.random() < 0.45):
        a = r.randint(2, cs["T"] - 1)
        cs["sel"] = list(range(a, r.randint(a + (1 if a + 1 <= cs["T"] else 0), cs["T"]) + 1))
        if len(cs["sel"]) < 2:
            cs["sel"] = list(range(2, cs["T"] + 1))
    elif not cs["multi"] and cs["T"] >= 3 and r.random() < 0.15:
        cs["sel"] = list(range(1, cs["T"])) if r.random() < 0.5 or focus in ("balance", "kvl", "loss") and r.random() < 0.5 else list(range(2, cs["T"] + 1))
    elif not cs["multi"] and cs["T"] >= 3 and focus in ("balance", "kvl", "loss", "storage", "cost", "glc") and r.random() < 0.15:
        cs["sel"] = sorted(r.sample(range(1, cs["T"] + 1), r.randint(2, cs["T"])))      # with gaps
    elif cs["multi"] and r.random() < 0.2 and focus != "glc":
        y = r.choice(cs["per"])
        cs["sel"] = [i + 1 for i in range(cs["T"]) if cs["per"][i] == y]
    return cs


def lifetimes(r, cs, a, p=0.6):
    if cs["multi"]:
        if r.random() < p:
            ys = [q["y"] for q in cs["py"]]
            a["build_year"] = r.choice(ys + [ys[0] - 5, ys[0] - 1, ys[-1] + 1, ys[1] - 1])
            a["lifetime"] = r.choice([INF, 1, 5, 10, 11, 25, 40, float(ys[1] - a["build_year"]) if ys[1] > a["build_year"] else 20.0])
    else:
        if r.random() < 0.15:
            a["build_year"] = r.choice([0, 2030])
    if r.random() < 0.08:
        a["active"] = False


def nominal(r, cs, a, nom, p_ext, modular=True, values=(0, 4, 8, 10)):
    a[nom] = r.choice([v for v in values if v or p_ext > 0] if values else [8])
    if r.random() < p_ext:
        a[nom + "_extendable"] = True
        a[nom + "_min"] = r.choice([0, 0, 2, 4])
        a[nom + "_max"] = r.choice([INF, a[nom + "_min"] + 8, a[nom + "_min"] + 12, a[nom + "_min"]])
        if modular and r.random() < 0.3:
            a[nom + "_mod"] = r.choice([2, 2.5, 4, 1, 0.5])
        elif r.random() < 0.15:
            a[nom + "_set"] = a[nom + "_min"] + r.choice([0, 2])
        a["capital_cost"] = r.choice([0, 1, 2, 7.5] + [-1.5] * (a[nom + "_max"] < INF))      # a subsidy
    elif r.random() < 0.12:                            # says nothing about a given capacity
        d = r.choice(["_set", "_max", "_min", "_mod"])
        a[nom + d] = {"_set": r.choice([2, 20]), "_max": 2, "_min": 20, "_mod": 3}[d]


def history(r, cs, a):
    h = cs["sel"][0] - 1
    if h:
        a["hist_p"] = 0
        a["hist_status"] = [r.randint(0, 1) for _ in range(h)]
        if a["committable"]:
            a["hist_p"] = r.choice([A(a, "p_min_pu", 0) * a["p_nom"], a["p_nom"]]) if a["hist_status"][-1] else 0
        else:
            a["hist_p"] = r.choice([0, 2, 4, a["p_nom"]])


def commit(r, cs, a):
    a["committable"] = True
    a["min_up_time"] = r.choice([0, 0, 1, 2, 3])
    a["min_down_time"] = r.choice([0, 0, 1, 2, 3])
    if r.random() < 0.5:
        a["up_time_before"], a["down_time_before"] = r.choice([1, 1, 2, 3, 4]), 0
    else:
        a["up_time_before"], a["down_time_before"] = 0, r.choice([0, 1, 1, 2, 3] if cs["sel"][0] == 1 else [1, 2, 3])
    a["start_up_cost"], a["shut_down_cost"] = r.choice([0, 5, 10]), r.choice([0, 5, 3])
    a["stand_by_cost"] = r.choice([0, 1, 2])
    if r.random() < 0.3:
        a["ser"]["stand_by_cost"] = [r.choice([0, 1, 2]) for _ in range(cs["T"])]


def ramps(r, cs, a, p_series=0.3):
    a["ramp_limit_up"] = r.choice([NAN, 0.25, 0.5, 1, 0.75])
    a["ramp_limit_down"] = r.choice([NAN, 0.25, 0.5, 1, 0.75])
    maybe_ser(r, cs, a, "ramp_limit_up", [0.25, 0.5, 1, NAN], p_series)
    maybe_ser(r, cs, a, "ramp_limit_down", [0.25, 0.5, 1, NAN], p_series)
    if a["committable"]:
        a["ramp_limit_start_up"] = r.choice([1, 0.5, 0.75])
        a["ramp_limit_shut_down"] = r.choice([1, 0.5, 0.75])


def costs(r, cs, a, store=False, p=0.5):
    if r.random() < p:
        a["marginal_cost"] = r.choice([0, 1, 3, -2, 0.5])
        maybe_ser(r, cs, a, "marginal_cost", [0, 1, 2, 5], 0.3)
    if r.random() < p * 0.3:
        a["marginal_cost_quadratic"] = r.choice([0.5, 1])
        maybe_ser(r, cs, a, "marginal_cost_quadratic", [0, 0.25, 1], 0.3)
    if store and r.random() < p:
        a["marginal_cost_storage"] = r.choice([0.5, 1])
        maybe_ser(r, cs, a, "marginal_cost_storage", [0, 0.5, 2], 0.4)


def add_gens(r, cs, k, focus, cars):
    for i in range(k):
        b = r.choice(cs["buses"])["id"]
        a = gen("g%d" % i, b, carrier=r.choice(cars))
        lifetimes(r, cs, a)
        nominal(r, cs, a, "p_nom", dict(balance=0.3, storage=0.1, uc=0.15, ramp=0.35, kvl=0.1, loss=0.1, glc=0.6, cost=0.5, invest=0.8)[focus])
        a["p_min_pu"] = r.choice([0, 0, 0.25, -0.5])
        a["p_max_pu"] = r.choice([1, 1, 0.75, 0.5])
        maybe_ser(r, cs, a, "p_min_pu", [0, 0.25, -1, 0.5])
        maybe_ser(r, cs, a, "p_max_pu", [1, 0.5, 0.75])
        if r.random() < 0.2:
            a["sign"] = -1
        com = dict(uc=0.85, ramp=0.35, cost=0.7, balance=0.1).get(focus, 0.0)
        if not a["p_nom_extendable"] and not cs["multi"] and r.random() < com:
            commit(r, cs, a)
            a["p_nom"] = r.choice([8, 10])
            a["p_min_pu"] = r.choice([0, 0.25, 0.5])
            a["ser"].pop("p_min_pu", None)
        if r.random() < dict(ramp=0.8, uc=0.2).get(focus, 0.05):
            ramps(r, cs, a, 0.3 if focus == "ramp" else 0.1)
        if focus in ("balance", "invest") and r.random() < 0.2 and not a["committable"]:
            a["ser"]["p_set"] = [r.choice([NAN, 1, 2, 2]) for _ in range(cs["T"])]
        if focus in ("balance", "glc") and r.random() < 0.25:
            a["e_sum_min"], a["e_sum_max"] = r.choice([(-INF, 20), (4, INF), (2, 30)])
        if r.random() < 0.4:
            a["efficiency"] = r.choice([0.5, 0.8])
            maybe_ser(r, cs, a, "efficiency", [0.5, 0.25, 0.8])
        costs(r, cs, a, p=0.8 if focus in ("cost", "uc") else 0.2)
        cs["gens"].append(a)
    com = [a for a in cs["gens"] if a["committable"]]
    if len(com) > 1 and r.random() < 0.4:          # a cost and a revenue of equal size
        key = r.choice(["start_up_cost", "shut_down_cost"])
        com[0][key], com[1][key] = 4, -4
        for a in com[2:]:
            a[key] = 0
    for i, b in enumerate(cs["buses"]):
        s = gen("slack%d" % i, b["id"], p_nom=1000, p_min_pu=-1, carrier="", marginal_cost=r.choice([1, 1, 4]))
        cs["gens"].append(s)


def add_loads(r, cs, k):
    for i in range(k):
        a = load("d%d" % i, r.choice(cs["buses"])["id"], p_set=r.choice([1, 2, 3, 5]))
        maybe_ser(r, cs, a, "p_set", [0, 1, 2, 4], 0.6)
        if r.random() < 0.15:
            a["sign"] = 1
        if r.random() < 0.12:
            a["active"] = False
        cs["loads"].append(a)


def add_sus(r, cs, k, focus, cars):
    for i in range(k):
        a = su("u%d" % i, r.choice(cs["buses"])["id"], carrier=r.choice(cars), max_hours=r.choice([1, 2, 4, 0.5]))
        lifetimes(r, cs, a, 0.5)
        nominal(r, cs, a, "p_nom", 0.3 if focus in ("storage", "balance") else 0.5 if focus in ("invest", "glc", "cost") else 0.1, values=(4, 8, 10))
        a["efficiency_store"], a["efficiency_dispatch"] = r.choice([1, 0.5, 0.8]), r.choice([1, 0.5, 0.8])
        a["standing_loss"] = r.choice([0, 0, 0.1, 0.5])
        a["cyclic_state_of_charge"] = r.random() < 0.4
        a["state_of_charge_initial"] = r.choice([0, 2, 4])
        a["inflow"] = r.choice([0, 0, 1, 3])
        if cs["per"][0]:
            a["cyclic_state_of_charge_per_period"] = r.random() < 0.5
            a["state_of_charge_initial_per_period"] = r.random() < 0.3
        if r.random() < 0.3:
            a["p_min_pu"] = r.choice([-0.5, 0])
            a["p_max_pu"] = r.choice([1, 0.5])
        maybe_ser(r, cs, a, "inflow", [0, 1, 3, -1] if r.random() < 0.15 else [0, 1, 3], 0.35)
        maybe_ser(r, cs, a, "standing_loss", [0, 0.1, 0.25], 0.2)
        maybe_ser(r, cs, a, "efficiency_store", [1, 0.5], 0.2)
        maybe_ser(r, cs, a, "efficiency_dispatch", [1, 0.5], 0.2)
        maybe_ser(r, cs, a, "p_max_pu", [1, 0.5], 0.2)
        if r.random() < 0.2:
            a["ser"]["state_of_charge_set"] = [r.choice([NAN, NAN, 2]) for _ in range(cs["T"])]
        if r.random() < 0.15:
            a["sign"] = -1
        costs(r, cs, a, True, 0.8 if focus == "cost" else 0.2)
        if r.random() < (0.6 if focus == "cost" else 0.1):
            a["spill_cost"] = r.choice([1, 2])
            maybe_ser(r, cs, a, "spill_cost", [0, 1, 3], 0.3)
        cs["sus"].append(a)


def add_stores(r, cs, k, focus, cars):
    for i in range(k):
        a = store("s%d" % i, r.choice(cs["buses"])["id"], carrier=r.choice(cars))
        lifetimes(r, cs, a, 0.5)
        nominal(r, cs, a, "e_nom", 0.3 if focus in ("storage", "balance") else 0.5 if focus in ("invest", "glc", "cost") else 0.1, values=(8, 10))
        a["standing_loss"] = r.choice([0, 0, 0.1, 0.5])
        a["e_cyclic"] = r.random() < 0.4
        a["e_initial"] = r.choice([0, 2, 4])
        if cs["per"][0]:
            a["e_cyclic_per_period"] = r.random() < 0.5
            a["e_initial_per_period"] = r.random() < 0.3
        a["e_min_pu"] = r.choice([0, 0, 0.25, -1])
        maybe_ser(r, cs, a, "e_min_pu", [0, 0.25], 0.2)
        maybe_ser(r, cs, a, "e_max_pu", [1, 0.5, 0.75], 0.3)
        maybe_ser(r, cs, a, "standing_loss", [0, 0.1, 0.25], 0.2)
        if r.random() < 0.15:
            a["sign"] = -1
        costs(r, cs, a, True, 0.8 if focus == "cost" else 0.2)
        cs["stores"].append(a)


def add_links(r, cs, k, focus, cars):
    multi = r.random() < 0.5
    for i in range(k):
        bs = [b["id"] for b in cs["buses"]]
        outs = [(r.choice(bs), r.choice([1, 0.5, 0.9]))]
        if multi:
            if r.random() < 0.6:
                outs.append((r.choice(bs), r.choice([0.5, -0.25, 0.3])))
            elif r.random() < 0.7:
                outs.append(("", 1))
            if r.random() < 0.3 and len(outs) == 2:
                outs.append((r.choice(bs), r.choice([0.25, -1])))
        a = link("l%d" % i, r.choice(bs), outs, carrier=r.choice(cars + ["DC"]), length=r.choice([10, 50]))
        lifetimes(r, cs, a)
        nominal(r, cs, a, "p_nom", dict(balance=0.3, uc=0.1, ramp=0.3, glc=0.6, cost=0.4, invest=0.6).get(focus, 0.2), values=(4, 8, 10))
        a["p_min_pu"] = r.choice([0, 0, -1, 0.25])
        a["p_max_pu"] = r.choice([1, 1, 0.5])
        maybe_ser(r, cs, a, "p_max_pu", [1, 0.5], 0.25)
        maybe_ser(r, cs, a, "p_min_pu", [0, -1, 0.25], 0.25)
        for j, p in enumerate(a["ports"]):
            if p["bus"]:
                maybe_ser(r, cs, a, p["eff"], [1, 0.5, 0.25], 0.3)
        if not a["p_nom_extendable"] and not cs["multi"] and r.random() < dict(uc=0.6, ramp=0.3, cost=0.2).get(focus, 0):
            commit(r, cs, a)
            a["p_min_pu"] = r.choice([0, 0.25, 0.5])
            a["ser"].pop("p_min_pu", None)
        if r.random() < dict(ramp=0.8, uc=0.15).get(focus, 0.05):
            ramps(r, cs, a)
        if focus in ("balance",) and r.random() < 0.15 and not a["committable"]:
            a["ser"]["p_set"] = [r.choice([NAN, 1, 2]) for _ in range(cs["T"])]
        costs(r, cs, a, p=0.8 if focus in ("cost", "uc") else 0.2)
        cs["links"].append(a)
    # every link knows every port the network has
    np_ = max([len(a["ports"]) for a in cs["links"]] + [0])
    for a in cs["links"]:
        while len(a["ports"]) < np_:
            e = "efficiency%d" % (len(a["ports"]) + 1)
            a["ports"].append(dict(bus="", eff=e))
            a[e] = 1


def add_branches(r, cs, focus):
    bs = cs["buses"]
    if len(bs) < 2:
        return
    dense = dict(kvl=1.0, loss=0.7).get(focus, 0.5)
    k = r.randint(1, 2) if dense < 1 else r.randint(3, 6)
    if focus == "loss":
        k = r.randint(1, 4)
    tname = r.choice(["t%d", "t%d", "n%d"])           # a line and a transformer may share a name
    for i in range(k):
        b0 = r.choice(bs)
        same = [b for b in bs if b["carrier"] == b0["carrier"] and b["id"] != b0["id"]]
        if not same:
            continue
        b1 = r.choice(same)
        if b0["v_nom"] != b1["v_nom"] or r.random() < 0.3:
            a = trafo(tname % len(cs["trafos"]), b0["id"], b1["id"], x=r.choice([1, 2, 4]), r=r.choice([0.02, 0.05]), tap_ratio=r.choice([1, 1, 0.5, 1.25]))
            if b0["carrier"] == "DC" and not cs["losses"]:
                a["r"] = r.choice([0.5, 1, 2])
            nominal(r, cs, a, "s_nom", 0.3, values=(8, 10))
            key = "trafos"
        else:
            a = line("n%d" % len(cs["lines"]), b0["id"], b1["id"], x=r.choice([0.25, 0.5, 1, 2]), r=r.choice([0.01, 0.02, 0.005]) if b0["carrier"] == "AC" else r.choice([0.01, 0.02]),
                     carrier=b0["carrier"], length=r.choice([1, 20, 50]))
            nominal(r, cs, a, "s_nom", 0.6 if focus in ("glc", "invest", "cost") else 0.3, values=(8, 10))
            if a["r"] and cs["losses"] == 0 and b0["carrier"] == "DC":
                a["r"] = r.choice([0.25, 0.5, 1])
            key = "lines"
        if cs["losses"] and not math.isfinite(a["s_nom_max"]):
            a["s_nom_max"] = a["s_nom_min"] + 12
        a["s_max_pu"] = r.choice([1, 1, 0.7])
        maybe_ser(r, cs, a, "s_max_pu", [1, 0.5, 0.8], 0.3)
        lifetimes(r, cs, a)
        cs[key].append(a)


def add_limits(r, cs, cars):
    years = [p["y"] for p in cs["py"]]
    for i in range(r.randint(1, 3)):
        ty = r.choice(["primary_energy", "primary_energy", "operational_limit", "tech_capacity_expansion_limit",
                       "transmission_volume_expansion_limit", "transmission_expansion_cost_limit"])
        g = dict(id="glc%d" % i, type=ty, attr="co2_emissions", sense=r.choice(["<=", "<=", ">=", "=="]), constant=0, period=0, bus="", carriers=[])
        if years and r.random() < 0.4:
            g["period"] = r.choice(years)
        if ty == "operational_limit" or ty == "tech_capacity_expansion_limit":
            g["attr"] = r.choice(cars)
        if ty.startswith("transmission"):
            g["carriers"] = r.choice([["AC"], ["AC", "DC"], ["DC"]])
            g["attr"] = ", ".join(g["carriers"]) if r.random() < 0.5 else "[" + ",".join(g["carriers"]) + "]"
        if ty == "tech_capacity_expansion_limit" and r.random() < 0.4:
            g["bus"] = r.choice(cs["buses"])["id"]
        cs["glcs"].append(g)
    if r.random() < 0.3:
        c = r.choice(cars)
        b = r.choice(cs["buses"])
        b["nomlims"].append(dict(kind=r.choice(["min", "max"]), carrier=c, period=r.choice(years) if years and r.random() < 0.4 else 0, value=r.choice([2, 6, 10])))
    if cs["multi"] and r.random() < 0.5:
        for name in r.sample(cars, r.randint(1, 2)):
            c = next(z for z in cs["carriers"] if z["id"] == name)
            c["max_growth"] = r.choice([4, 8, 12])
            c["max_relative_growth"] = r.choice([0, 0, 0.5])


def reach(cs, g, x):
    """About the value of a limited quantity at candidate x (only used to choose interesting limits)."""
    hours = lambda k: cs["wg"][cs["sel"][k] - 1] * next((p["wy"] for p in cs["py"] if p["y"] == cs["per"][cs["sel"][k] - 1]), 1)
    ks = [k for k in range(len(cs["sel"])) if not g["period"] or cs["per"][cs["sel"][k] - 1] == g["period"]]
    em = {c["id"]: c["em"].get(g["attr"], 0) for c in cs["carriers"]}
    v = 0.0
    if g["type"] in ("primary_energy", "operational_limit"):
        f = (lambda a: em.get(a["carrier"], 0)) if g["type"] == "primary_energy" else (lambda a: float(a["carrier"] == g["attr"]))
        for a in cs["gens"]:
            for k in ks:
                if f(a):
                    v += f(a) * hours(k) * x["gp"][a["id"]][k] / (A(a, "efficiency", cs["sel"][k] - 1) if g["type"] == "primary_energy" else 1)
        for key, lev, ini, cyc in (("sus", "soc", "state_of_charge_initial", "cyclic_state_of_charge"), ("stores", "se", "e_initial", "e_cyclic")):
            for a in cs[key]:
                act = [k for k in ks if on(cs, a, k)]
                if act and not a[cyc]:
                    v += f(a) * (a[ini] - x[lev][a["id"]][act[-1]])
        return v
    for key, nom in NOM.items():
        for a in cs[key]:
            if a[nom + "_extendable"]:
                c = x["cap"][CLS[key]][a["id"]]
                if g["type"] == "tech_capacity_expansion_limit":
                    v += c * (a.get("carrier") == g["attr"])
                elif key in ("lines", "links"):
                    v += c * (a["carrier"] in g["carriers"]) * (a["length"] if "volume" in g["type"] else a["capital_cost"])
    return v


def new_capacity(cs, car, x):
    out = [0.0 for _ in cs["py"]]
    for key, nom in NOM.items():
        for a in cs[key]:
            here = [i for i, p in enumerate(cs["py"]) if a["build_year"] <= p["y"] < a["build_year"] + a["lifetime"]]
            if a[nom + "_extendable"] and a.get("carrier") == car and here:
                out[here[0]] += x["cap"][CLS[key]][a["id"]]
    return out


def calibrate(r, cs):
    """Choose the limits near values that decisions reach; returns decisions that (about) reach them."""
    if any(c["max_growth"] < INF for c in cs["carriers"]) and r.random() < 0.8:
        xs = [Sampler(cs, r, bad=0).sample() for _ in range(4)]
        x = r.choice(xs)
        for c in cs["carriers"]:
            if c["max_growth"] < INF:
                new = new_capacity(cs, c["id"], x)
                grown = [v - c["max_relative_growth"] * (new[i - 1] if i else 0) for i, v in enumerate(new)]
                c["max_growth"] = max(0.5, max(grown) + r.choice([0, 0, 0, 0.5, -0.5]))
        return xs
    if not cs["glcs"]:
        return []
    xs = [Sampler(cs, r, bad=0).sample() for _ in range(6)]
    x = r.choice(xs)
    for g in cs["glcs"]:
        v = reach(cs, g, x if r.random() < 0.8 else r.choice(xs))
        u = r.random()
        if g["sense"] == "==" or u < 0.35:
            g["constant"] = v
        else:
            d = r.choice([0, 0.5, 1, 5])
            g["constant"] = v + (d if g["sense"] == "<=" else -d) * (1 if r.random() < 0.85 else -1)
    return xs


def growth(r, cs, cars):
    """Several carriers of limited growth, components appearing in several periods."""
    years = [p["y"] for p in cs["py"]]
    for c in cs["carriers"]:
        if c["id"] in cars and r.random() < 0.8:
            c["max_growth"] = r.choice([2, 4, 6])
            c["max_relative_growth"] = r.choice([0, 0.5, 1, 2])
    for key, nom in NOM.items():
        for a in cs[key]:
            if a["id"].startswith("slack"):
                continue
            a["build_year"], a["lifetime"] = r.choice(years), r.choice([100, 100, 10, INF])
            if r.random() < 0.8 and not a.get("committable"):
                a[nom + "_extendable"], a[nom + "_mod"], a[nom + "_min"], a[nom + "_max"] = True, 0, 0, r.choice([12, 16, INF])
                a[nom + "_set"] = NAN
    for a in cs["gens"]:
        a["e_sum_min"], a["e_sum_max"] = -INF, INF


def across_periods(r, cs):
    """Storage that cycles over the periods it is in service."""
    years = [p["y"] for p in cs["py"]]
    for a in cs["sus"] + cs["stores"]:
        if r.random() < 0.8:
            a["build_year"], a["lifetime"] = r.choice([(years[0], years[1] - years[0]), (years[1], INF), (years[0], years[-1] - years[0]), (years[0], INF)])
        c, e = ("cyclic_state_of_charge", "state_of_charge_initial") if "max_hours" in a else ("e_cyclic", "e_initial")
        a[c], a[c + "_per_period"], a[e + "_per_period"] = r.random() < 0.7, r.random() < 0.3, r.random() < 0.2


def random_case(r, focus):
    focus, _, kind = focus.partition(":")
    cs = skeleton(r, focus, kind)
    if focus == "loss":
        cs["losses"] = r.choice([1, 2, 3, 4])
    nb = r.randint(3, 5) if focus == "kvl" else r.randint(2, 3) if focus in ("balance", "loss", "glc") else r.randint(1, 2)
    for i in range(nb):
        cs["buses"].append(bus("b%d" % i, v_nom=r.choice([1, 1, 2]) if focus in ("kvl", "loss") else 1))
    if kind == "dc" or focus in ("kvl", "loss", "balance") and r.random() < 0.35:
        dc = r.sample(cs["buses"], nb - r.randint(0, 1) if kind == "dc" else r.randint(1, max(1, nb - 1)))
        for b in dc:
            b["carrier"] = "DC"
    # lines join buses of equal voltage
    cars = ["wind", "gas"]
    for c in cars + ["", "AC", "DC"]:
        if c:
            cs["carriers"].append(carrier(c, em={"co2_emissions": {"gas": r.choice([0.5, 1]), "wind": r.choice([0, 0, 0.25])}.get(c, 0)}))
    gcars = cars if focus in ("glc", "invest") else cars + [""]
    ng = dict(balance=r.randint(1, 3), storage=0, uc=r.randint(1, 2), ramp=r.randint(1, 2), kvl=0, loss=0, glc=r.randint(1, 3), cost=r.randint(1, 3), invest=r.randint(1, 3))[focus]
    add_gens(r, cs, ng + 2 * (kind == "growth"), focus, gcars)
    if kind == "window":
        for a in cs["gens"]:
            if a["id"].startswith("slack"):
                continue
            if not a["p_nom_extendable"] and not a["committable"] and r.random() < 0.6:
                commit(r, cs, a)
            ramps(r, cs, a, 0.8)
    add_loads(r, cs, r.randint(0, 2) if focus in ("balance", "kvl", "loss", "cost") else r.randint(0, 1))
    if focus == "storage":
        k = r.randint(0, 2)
        add_sus(r, cs, k, focus, gcars)
        add_stores(r, cs, max(1 - k, r.randint(0, 2)), focus, gcars)
    elif focus in ("balance", "cost", "glc", "invest"):
        if r.random() < 0.5:
            add_sus(r, cs, 1, focus, gcars)
        if r.random() < 0.5:
            add_stores(r, cs, 1, focus, gcars)
    nl = dict(balance=r.randint(0, 3), uc=r.randint(0, 1), ramp=r.randint(0, 1), glc=r.randint(0, 1), cost=r.randint(0, 1), invest=r.randint(0, 1), kvl=r.randint(0, 1)).get(focus, 0)
    add_links(r, cs, nl, focus, gcars)
    if focus in ("kvl", "loss") or (focus in ("balance", "glc", "cost", "invest") and r.random() < 0.6):
        add_branches(r, cs, focus)
    for key in ("gens", "links"):
        for a in cs[key]:
            if cs["sel"][0] > 1:
                history(r, cs, a)
    if cs["losses"] and not (cs["lines"] or cs["trafos"]):
        cs["losses"] = 0
    if kind == "growth":
        growth(r, cs, cars)
    elif kind == "periods":
        across_periods(r, cs)
    elif focus == "glc":
        add_limits(r, cs, cars)
    fix_costs(cs)
    return cs


def fix_costs(cs):
    """The objective must have a term."""
    if not any(g["marginal_cost"] for g in cs["gens"]):
        cs["gens"][-1]["marginal_cost"] = 1
