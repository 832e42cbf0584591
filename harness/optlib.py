"""Optimisation cases: random generation, construction of the real network,
candidate decisions, and the real model's verdict on them."""
import copy, math, random
import numpy as np
import pandas as pd
import vlib

NAN, INF = float("nan"), float("inf")
CLS = {"gens": "Generator", "loads": "Load", "sus": "StorageUnit", "stores": "Store", "links": "Link", "lines": "Line", "trafos": "Transformer"}
NOM = {"gens": "p_nom", "sus": "p_nom", "stores": "e_nom", "links": "p_nom", "lines": "s_nom", "trafos": "s_nom"}

LIFE = dict(active=True, build_year=0, lifetime=INF)


def _nom(a, v):
    return {a: v, a + "_extendable": False, a + "_min": 0, a + "_max": INF, a + "_set": NAN, a + "_mod": 0}


def _uc():
    return dict(committable=False, min_up_time=0, min_down_time=0, up_time_before=1, down_time_before=0, start_up_cost=0, shut_down_cost=0,
                stand_by_cost=0, ramp_limit_up=NAN, ramp_limit_down=NAN, ramp_limit_start_up=1, ramp_limit_shut_down=1)


def gen(id, bus, **k):
    d = dict(id=id, bus=bus, sign=1, carrier="", p_min_pu=0, p_max_pu=1, e_sum_min=-INF, e_sum_max=INF, efficiency=1,
             marginal_cost=0, marginal_cost_quadratic=0, capital_cost=0, ser={}, **LIFE, **_nom("p_nom", 0), **_uc())
    d.update(k)
    return d


def load(id, bus, **k):
    d = dict(id=id, bus=bus, sign=-1, carrier="", p_set=0, active=True, build_year=0, lifetime=INF, ser={})
    d.update(k)
    return d


def su(id, bus, **k):
    d = dict(id=id, bus=bus, sign=1, carrier="", p_min_pu=-1, p_max_pu=1, marginal_cost=0, marginal_cost_quadratic=0, marginal_cost_storage=0, capital_cost=0,
             state_of_charge_initial=0, state_of_charge_initial_per_period=False, cyclic_state_of_charge=False, cyclic_state_of_charge_per_period=True,
             max_hours=1, efficiency_store=1, efficiency_dispatch=1, standing_loss=0, inflow=0, spill_cost=0, ser={}, **LIFE, **_nom("p_nom", 0))
    d.update(k)
    return d


def store(id, bus, **k):
    d = dict(id=id, bus=bus, sign=1, carrier="", e_min_pu=0, e_max_pu=1, e_initial=0, e_initial_per_period=False, e_cyclic=False, e_cyclic_per_period=True,
             marginal_cost=0, marginal_cost_quadratic=0, marginal_cost_storage=0, capital_cost=0, standing_loss=0, ser={}, **LIFE, **_nom("e_nom", 0))
    d.update(k)
    return d


def link(id, bus0, outs, **k):
    """outs: list of (bus, efficiency)"""
    d = dict(id=id, bus0=bus0, carrier="", p_min_pu=0, p_max_pu=1, marginal_cost=0, marginal_cost_quadratic=0, capital_cost=0, length=0, ser={},
             ports=[dict(bus=b, eff="efficiency" + ("" if i == 0 else str(i + 1))) for i, (b, _) in enumerate(outs)], **LIFE, **_nom("p_nom", 0), **_uc())
    for i, (_, e) in enumerate(outs):
        d["efficiency" + ("" if i == 0 else str(i + 1))] = e
    d.update(k)
    return d


def line(id, bus0, bus1, **k):
    d = dict(id=id, bus0=bus0, bus1=bus1, carrier="AC", r=0, x=1, s_max_pu=1, capital_cost=0, length=0, ser={}, **LIFE, **_nom("s_nom", 0))
    d.update(k)
    return d


def trafo(id, bus0, bus1, **k):
    d = dict(id=id, bus0=bus0, bus1=bus1, r=0, x=1, s_max_pu=1, tap_ratio=1, capital_cost=0, ser={}, **LIFE, **_nom("s_nom", 0))
    d.update(k)
    return d


def new_case(T=2, periods=None, **k):
    """periods: list of years; T snapshots per period."""
    n = T * (len(periods) if periods else 1)
    cs = dict(tags=[], T=n, per=[0] * n if not periods else [y for y in periods for _ in range(T)], wo=[1] * n, wg=[1] * n, ws=[1] * n,
              sel=list(range(1, n + 1)), multi=bool(periods), py=[dict(y=y, wo=1, wy=1) for y in periods or []], losses=0,
              buses=[], gens=[], loads=[], sus=[], stores=[], links=[], lines=[], trafos=[], carriers=[], glcs=[])
    cs.update(k)
    return cs


def bus(id, **k):
    d = dict(id=id, v_nom=1, carrier="AC", nomlims=[])
    d.update(k)
    return d


def carrier(id, **k):
    d = dict(id=id, max_growth=INF, max_relative_growth=0, em={"co2_emissions": 0})
    d.update(k)
    return d


# ------------------------------------------------------------------ the real network
SKIP = {"id", "ser", "ports", "hist_status", "hist_p", "nomlims", "em"}


def snapshots_of(cs):
    if cs["per"][0] == 0:
        return pd.RangeIndex(cs["T"], name="snapshot") if not cs.get("dates") else pd.date_range("2025-01-01", periods=cs["T"], freq="h", name="snapshot")
    years = sorted(set(cs["per"]))
    per = cs["T"] // len(years)
    return pd.MultiIndex.from_product([years, range(per)], names=["period", "timestep"])


def build(cs):
    import pypsa
    n = pypsa.Network()
    n.set_snapshots(snapshots_of(cs))
    if cs["per"][0] != 0:
        n.investment_periods = sorted(set(cs["per"]))
        for p in cs["py"]:
            n.investment_period_weightings.loc[p["y"], "objective"] = p["wo"]
            n.investment_period_weightings.loc[p["y"], "years"] = p["wy"]
    n.snapshot_weightings["objective"] = [float(v) for v in cs["wo"]]
    n.snapshot_weightings["generators"] = [float(v) for v in cs["wg"]]
    n.snapshot_weightings["stores"] = [float(v) for v in cs["ws"]]
    for c in cs["carriers"]:
        n.add("Carrier", c["id"], max_growth=c["max_growth"], max_relative_growth=c["max_relative_growth"], **{k: float(v) for k, v in c["em"].items()})
    for b in cs["buses"]:
        n.add("Bus", b["id"], v_nom=b["v_nom"], carrier=b["carrier"])
    for b in cs["buses"]:
        for l in b["nomlims"]:
            col = "nom_%s_%s" % (l["kind"], l["carrier"]) + ("_%d" % l["period"] if l["period"] else "")
            if col not in n.buses:
                n.buses[col] = NAN
            n.buses.loc[b["id"], col] = l["value"]
    for key, cls in CLS.items():
        for a in cs[key]:
            kw = {k: v for k, v in a.items() if k not in SKIP}
            if cls == "Link":
                for i, p in enumerate(a["ports"]):
                    kw["bus%d" % (i + 1)] = p["bus"]
            for k, v in a["ser"].items():
                kw[k] = pd.Series([float(z) for z in v], index=n.snapshots)
            n.add(cls, a["id"], **kw)
    for g in cs["glcs"]:
        kw = dict(type=g["type"], carrier_attribute=g["attr"], sense=g["sense"], constant=g["constant"])
        if g["period"]:
            kw["investment_period"] = g["period"]
        if g["bus"]:
            kw["bus"] = g["bus"]
        n.add("GlobalConstraint", g["id"], **kw)
    h = cs["sel"][0] - 1
    if h:
        for key, cls in (("gens", "Generator"), ("links", "Link")):
            for a in cs[key]:
                dyn = n.dynamic(cls)
                attr = "p" if cls == "Generator" else "p0"
                if attr not in dyn or a["id"] not in dyn[attr]:
                    dyn[attr] = dyn[attr].reindex(index=n.snapshots, columns=n.static(cls).index).fillna(0.0)
                dyn[attr].loc[n.snapshots[h - 1], a["id"]] = float(a["hist_p"])
                if a["committable"]:
                    if a["id"] not in dyn["status"]:
                        dyn["status"] = dyn["status"].reindex(index=n.snapshots, columns=n.static(cls).index[n.static(cls).committable]).fillna(0.0)
                    dyn["status"].loc[n.snapshots[:h], a["id"]] = [float(v) for v in a["hist_status"][:h]]
    return n


def selection(cs, n):
    return n.snapshots[[k - 1 for k in cs["sel"]]]


def make_model(cs, n=None, **kw):
    n = n if n is not None else build(cs)
    n.optimize.create_model(snapshots=selection(cs, n), multi_investment_periods=cs["multi"], transmission_losses=cs["losses"], **kw)
    return n


# ------------------------------------------------------------------ candidate <-> model variables
VARS = [("Generator-p", "gens", "gp"), ("Generator-status", "gens", "gst"), ("Generator-start_up", "gens", "gsu"), ("Generator-shut_down", "gens", "gsd"),
        ("Link-p", "links", "lp"), ("Link-status", "links", "lst"), ("Link-start_up", "links", "lsu"), ("Link-shut_down", "links", "lsd"),
        ("StorageUnit-p_dispatch", "sus", "ud"), ("StorageUnit-p_store", "sus", "us"), ("StorageUnit-state_of_charge", "sus", "soc"),
        ("StorageUnit-spill", "sus", "spill"), ("Store-p", "stores", "sp"), ("Store-e", "stores", "se")]


class RealModel:
    """The membership oracle: constraints and objective of the model PyPSA built."""

    def __init__(self, cs, n=None, ready=False, **kw):
        self.cs = cs
        self.n = n = n if ready else make_model(cs, n, **kw)
        self.m = m = n.model
        mat = m.matrices
        self.A = mat.A.tocsr()
        self.b, self.sense = mat.b, mat.sense
        self.lb, self.ub, self.c, self.Q, self.vt = mat.lb, mat.ub, mat.c, mat.Q, mat.vtypes
        self.pos = {l: i for i, l in enumerate(mat.vlabels)}
        self.clabels = mat.clabels
        self.norm = np.maximum(abs(self.A).max(axis=1).toarray().ravel(), 1e-300)
        self.map = {}          # (kind, id, k) -> label
        K = len(cs["sel"])
        known = {"objective_constant"}
        for name, key, xk in VARS:
            if name in m.variables:
                known.add(name)
                self._grid(name, xk, [a["id"] for a in cs[key]], K)
        for key, cls in (("lines", "Line"), ("trafos", "Transformer")):
            for attr, xk in (("s", "flow"), ("loss", "loss")):
                if "%s-%s" % (cls, attr) in m.variables:
                    known.add("%s-%s" % (cls, attr))
                    self._grid("%s-%s" % (cls, attr), (xk, cls), [a["id"] for a in cs[key]], K)
        for key, nom in NOM.items():
            cls = CLS[key]
            for name, xk in (("%s-%s" % (cls, nom), "cap"), ("%s-n_mod" % cls, "nmod")):
                if name in m.variables:
                    known.add(name)
                    v = m.variables[name]
                    ids = list(v.labels.coords[v.labels.dims[0]].values)
                    for i, l in zip(ids, np.asarray(v.labels.values)):
                        self.map[(xk, cls), str(i)] = int(l)
        self.aux = [i for name in m.variables if name not in known for i in self._positions(name)]
        self.const_label = [int(l) for l in np.ravel(m.variables["objective_constant"].labels.values)] if "objective_constant" in m.variables else []

    def _positions(self, name):
        return [self.pos[int(l)] for l in np.ravel(self.m.variables[name].labels.values) if int(l) in self.pos]

    def _grid(self, name, xk, ids, K):
        lab = self.m.variables[name].labels
        dim = [d for d in lab.dims if d != "snapshot"][0]
        lab = lab.transpose("snapshot", dim)
        cols = {str(c): j for j, c in enumerate(lab.coords[dim].values)}
        arr = np.asarray(lab.values)
        assert arr.shape[0] == K, (name, arr.shape, K)
        for i in ids:
            if i in cols:
                for k in range(K):
                    self.map[xk, i, k] = int(arr[k, cols[i]])

    def vector(self, x):
        """Model vector of candidate x, and the entries of x that have no variable."""
        v = np.full(len(self.pos), np.nan)
        orphan = []
        for (key, val) in flatten(x):
            lab = self.map.get(key, -1)
            if lab == -1 or lab not in self.pos:
                if abs(val) > 1e-9:
                    orphan.append(key)
            else:
                v[self.pos[lab]] = val
        for l in self.const_label:
            if l in self.pos:
                v[self.pos[l]] = self.lb[self.pos[l]]
        return v, orphan

    def admits(self, x, tol=2e-6):
        """(admitted, reason, objective value)"""
        v, orphan = self.vector(x)
        miss = np.isnan(v)
        if miss.any():
            if set(np.where(miss)[0]) <= set(self.aux):
                v, ok = self._project(v, miss)
                if not ok:
                    return False, "auxiliary variables", 0.0, 1.0
            else:
                raise vlib.MachineryError("candidate does not fix variables %s" % [self.m.variables.get_label_position(int(l)) for l, i in self.pos.items() if miss[i]][:5])
        obj = float(self.c @ v) + (0.5 * float(v @ (self.Q @ v)) if self.Q is not None else 0.0)
        scale = float(np.abs(self.c * v).sum()) + (0.5 * float(np.abs(v) @ (abs(self.Q) @ np.abs(v))) if self.Q is not None else 0.0)
        if orphan:
            return False, "no variable for %s" % (orphan[0],), obj, scale
        if (v < self.lb - tol * (1 + abs(v))).any() or (v > self.ub + tol * (1 + abs(v))).any():
            i = int(np.argmax(np.maximum(self.lb - v, v - self.ub)))
            lab = [l for l, p in self.pos.items() if p == i][0]
            return False, "bounds of %s" % (self.m.variables.get_label_position(int(lab))[0],), obj, scale
        iv = np.isin(self.vt, ["B", "I"])
        if (np.abs(v[iv] - np.round(v[iv])) > 1e-5).any():
            return False, "integrality", obj, scale
        lhs = self.A @ v
        s = np.asarray(abs(self.A) @ np.abs(v)) / self.norm
        slack = (lhs - self.b) / self.norm
        t = tol * (1 + s)
        bad = np.where(self.sense == "<", slack > t, np.where(self.sense == ">", slack < -t, np.abs(slack) > t))
        if bad.any():
            i = int(np.argmax(np.abs(np.where(bad, slack, 0))))
            return False, str(self.m.constraints.get_name_by_label(int(self.clabels[i]))), obj, scale
        return True, "", obj, scale

    def _project(self, v, miss):
        from scipy.optimize import milp, LinearConstraint, Bounds
        f = np.where(miss)[0]
        base = np.where(miss, 0, v)
        r = self.b - self.A @ base
        lo = np.where(self.sense == "<", -np.inf, r) - 1e-6
        hi = np.where(self.sense == ">", np.inf, r) + 1e-6
        res = milp(self.c[f], constraints=LinearConstraint(self.A[:, f], lo, hi), bounds=Bounds(self.lb[f], self.ub[f]),
                   integrality=np.isin(self.vt[f], ["B", "I"]).astype(int))
        if res.status != 0:
            return v, False
        v = v.copy()
        v[f] = res.x
        return v, True

    def candidate(self, v):
        """Candidate decision of a model vector (for vertices found by a solver)."""
        x = blank(self.cs)
        for key, _ in list(flatten(x)):
            lab = self.map.get(key, -1)
            put(x, key, float(v[self.pos[lab]]) if lab in self.pos else 0.0)
        return x

    def vertex(self, c, time_limit=10):
        """An optimal point of the real model for linear objective c (dict key->coef or vector), or None."""
        from scipy.optimize import milp, LinearConstraint, Bounds
        lo = np.where(self.sense == "<", -np.inf, self.b)
        hi = np.where(self.sense == ">", np.inf, self.b)
        An = self.A.multiply(1 / self.norm[:, None]).tocsr()
        res = milp(c, constraints=LinearConstraint(An, lo / self.norm, hi / self.norm), bounds=Bounds(np.maximum(self.lb, -5e3), np.minimum(self.ub, 5e3)),
                   integrality=np.isin(self.vt, ["B", "I"]).astype(int), options=dict(time_limit=time_limit))
        return None if res.x is None else res.x


def flatten(x):
    """(key, value) of every entry of a candidate."""
    for xk, d in x.items():
        if xk in ("flow", "loss"):
            for cls, dd in d.items():
                for i, vs in dd.items():
                    for k, v in enumerate(vs):
                        yield ((xk, cls), i, k), v
        elif xk in ("cap", "nmod"):
            for cls, dd in d.items():
                for i, v in dd.items():
                    yield ((xk, cls), i), v
        else:
            for i, vs in d.items():
                for k, v in enumerate(vs):
                    yield (xk, i, k), v


def put(x, key, v):
    xk = key[0]
    if isinstance(xk, tuple):
        if len(key) == 3:
            x[xk[0]][xk[1]][key[1]][key[2]] = v
        else:
            x[xk[0]][xk[1]][key[1]] = v
    else:
        x[xk][key[1]][key[2]] = v


def get(x, key):
    xk = key[0]
    if isinstance(xk, tuple):
        return x[xk[0]][xk[1]][key[1]][key[2]] if len(key) == 3 else x[xk[0]][xk[1]][key[1]]
    return x[xk][key[1]][key[2]]


def blank(cs):
    K = len(cs["sel"])
    z = lambda seq: {a["id"]: [0.0] * K for a in seq}
    com = lambda seq: [a for a in seq if a["committable"]]
    x = dict(gp=z(cs["gens"]), gst=z(com(cs["gens"])), gsu=z(com(cs["gens"])), gsd=z(com(cs["gens"])),
             lp=z(cs["links"]), lst=z(com(cs["links"])), lsu=z(com(cs["links"])), lsd=z(com(cs["links"])),
             ud=z(cs["sus"]), us=z(cs["sus"]), soc=z(cs["sus"]), spill=z(cs["sus"]), sp=z(cs["stores"]), se=z(cs["stores"]),
             flow=dict(Line=z(cs["lines"]), Transformer=z(cs["trafos"])), cap={}, nmod={})
    if cs["losses"]:
        x["loss"] = dict(Line=z(cs["lines"]), Transformer=z(cs["trafos"]))
    for key, nom in NOM.items():
        x["cap"][CLS[key]] = {a["id"]: 0.0 for a in cs[key] if a[nom + "_extendable"]}
        x["nmod"][CLS[key]] = {a["id"]: 0.0 for a in cs[key] if a[nom + "_extendable"] and a[nom + "_mod"] > 0}
    return x


# ------------------------------------------------------------------ attribute helpers (sampling only; the specification has its own)
def A(a, attr, t):
    return a["ser"][attr][t] if attr in a["ser"] else a[attr]


def on(cs, a, k):
    y = cs["per"][cs["sel"][k] - 1]
    if not a["active"]:
        return False
    return (a["build_year"] <= y < a["build_year"] + a["lifetime"]) if cs["multi"] else True


class Sampler:
    """Random candidate decisions that mostly satisfy the rules; at most `budget` deliberate violations."""

    def __init__(self, cs, rng, bad=0.0, noslack=False):
        self.cs, self.r, self.bad = cs, rng, bad
        self.K = len(cs["sel"])
        self.left = 1

    def pick(self, lo, hi, integer=False):
        r = self.r
        if not math.isfinite(lo):
            lo = min(-8, hi - 8) if math.isfinite(hi) else -8
        if not math.isfinite(hi):
            hi = lo + 16
        if self.left and r.random() < self.bad:
            self.left -= 1
            d = r.choice([0.5, 1, 2])
            return lo - d if r.random() < 0.5 else hi + d
        if lo > hi:
            return r.choice([lo, hi])
        u = r.random()
        if u < 0.2:
            return lo
        if u < 0.4:
            return hi
        if lo <= 0 <= hi and u < 0.5:
            return 0.0
        v = lo + (hi - lo) * r.randint(0, 8) / 8
        return v

    def sample(self):
        cs, r, K = self.cs, self.r, self.K
        x = blank(cs)
        for key, nom in NOM.items():
            for a in cs[key]:
                if not a[nom + "_extendable"]:
                    continue
                lo, hi = a[nom + "_min"], min(a[nom + "_max"], a[nom + "_min"] + 20)
                mod, st = a[nom + "_mod"], a[nom + "_set"]
                if mod > 0:
                    m = r.randint(math.ceil(lo / mod), max(math.ceil(lo / mod), math.floor(hi / mod)))
                    if self.left and r.random() < self.bad:
                        self.left -= 1
                        m = r.choice([m + 0.5, m - 1, m + 20])
                    x["nmod"][CLS[key]][a["id"]] = m
                    x["cap"][CLS[key]][a["id"]] = m * mod
                elif st == st:
                    x["cap"][CLS[key]][a["id"]] = self.pick(st, st)
                else:
                    x["cap"][CLS[key]][a["id"]] = self.pick(lo, hi)
        capof = lambda key, a: x["cap"][CLS[key]][a["id"]] if a[NOM[key] + "_extendable"] else a[NOM[key]]
        # schedules
        for key, p, st, su_, sd in (("gens", "gp", "gst", "gsu", "gsd"), ("links", "lp", "lst", "lsu", "lsd")):
            for a in cs[key]:
                if a["id"].startswith("slack"):
                    continue
                cap = capof(key, a)
                prev_p = None
                if a["committable"]:
                    x[st][a["id"]] = self.schedule(a)
                    self.transitions(a, x[st][a["id"]], x[su_][a["id"]], x[sd][a["id"]])
                for k in range(K):
                    t = cs["sel"][k] - 1
                    if not on(cs, a, k):
                        if self.left and r.random() < self.bad:
                            self.left -= 1
                            x[p][a["id"]][k] = r.choice([1.0, 2.0])
                        continue
                    s = x[st][a["id"]][k] if a["committable"] else 1
                    lo, hi = A(a, "p_min_pu", t) * cap * s, A(a, "p_max_pu", t) * cap * s
                    if "p_set" in a["ser"] and a["ser"]["p_set"][t] == a["ser"]["p_set"][t]:
                        lo = hi = a["ser"]["p_set"][t]
                    elif k and r.random() < 0.8 and x[p][a["id"]][k - 1] is not None:
                        q = x[p][a["id"]][k - 1]
                        ru, rd = A(a, "ramp_limit_up", t), A(a, "ramp_limit_down", t)
                        if ru == ru and q + ru * cap >= lo:
                            hi = min(hi, q + ru * cap)
                        if rd == rd and q - rd * cap <= hi:
                            lo = max(lo, q - rd * cap)
                    x[p][a["id"]][k] = self.pick(lo, hi)
        for a in cs["sus"]:
            self.storage_unit(a, x, capof("sus", a))
        for a in cs["stores"]:
            self.store(a, x, capof("stores", a))
        self.grid(x, capof)
        self.balance(x)
        if self.left and r.random() < self.bad * 2:
            self.left -= 1
            keys = [k for k, _ in flatten(x)]
            if keys:
                k = r.choice(keys)
                put(x, k, get(x, k) + r.choice([-2, -1, -0.5, 0.5, 1, 2]))
        return x

    def schedule(self, a):
        r, K, cs = self.r, self.K, self.cs
        if not a["active"]:
            return [0] * K
        h = cs["sel"][0] - 1
        if h:
            s = a["hist_status"][h - 1]
            age = 0
            for v in reversed(a["hist_status"][:h]):
                if v != s:
                    break
                age += 1
            if age == h:
                age += a["up_time_before"] if s else a["down_time_before"]
        elif a["up_time_before"] > 0:
            s, age = 1, a["up_time_before"]
        else:
            s, age = 0, a["down_time_before"] or 99
        out = []
        for k in range(K):
            may = age >= (a["min_up_time"] if s else a["min_down_time"])
            if (may and r.random() < 0.5) or (self.left and r.random() < self.bad):
                if not may:
                    self.left -= 1
                s, age = 1 - s, 1
            else:
                age += 1
            out.append(s)
        return out

    def transitions(self, a, st, su_, sd):
        if not a["active"]:
            return
        h = self.cs["sel"][0] - 1
        prev = (a["hist_status"][h - 1] if h else (1 if a["up_time_before"] > 0 else 0))
        for k in range(self.K):
            su_[k], sd[k] = max(0, st[k] - prev), max(0, prev - st[k])
            prev = st[k]
        if self.left and self.r.random() < self.bad:
            self.left -= 1
            k = self.r.randrange(self.K)
            q = self.r.choice([su_, sd])
            q[k] = 1 - q[k]

    def spans(self, a, per_period):
        cs = self.cs
        act = [k for k in range(self.K) if on(cs, a, k)]
        if not per_period:
            return [act] if act else []
        ys = []
        for k in act:
            y = cs["per"][cs["sel"][k] - 1]
            if not ys or ys[-1][0] != y:
                ys.append((y, []))
            ys[-1][1].append(k)
        return [s for _, s in ys]

    def storage_unit(self, a, x, cap):
        cs, r = self.cs, self.r
        mi = cs["per"][0] != 0
        pp = mi and (a["cyclic_state_of_charge_per_period"] or a["state_of_charge_initial_per_period"])
        top = a["max_hours"] * cap
        for span in self.spans(a, pp):
            lev = {}
            for k in span:
                t = cs["sel"][k] - 1
                if "state_of_charge_set" in a["ser"] and a["ser"]["state_of_charge_set"][t] == a["ser"]["state_of_charge_set"][t]:
                    lev[k] = self.pick(a["ser"]["state_of_charge_set"][t], a["ser"]["state_of_charge_set"][t])
                else:
                    lev[k] = None
            prev = a["state_of_charge_initial"]
            if a["cyclic_state_of_charge"]:
                prev = lev[span[-1]] if lev[span[-1]] is not None else self.pick(0, top)
                lev[span[-1]] = prev
            for k in span:
                t, h = cs["sel"][k] - 1, cs["ws"][cs["sel"][k] - 1]
                es, ed, inflow = A(a, "efficiency_store", t), A(a, "efficiency_dispatch", t), A(a, "inflow", t)
                carry = (1 - A(a, "standing_loss", t)) ** h * prev + h * inflow
                dmax, smax = max(0, A(a, "p_max_pu", t) * cap), max(0, -A(a, "p_min_pu", t) * cap)
                if lev[k] is None:
                    # choose an operation whose level stays inside, when there is one
                    room, need = top - carry, carry
                    w = self.pick(0, max(inflow, 0)) if inflow > 0 else 0.0
                    d = self.pick(0, max(0, min(dmax, (carry - h * w) * ed / h))) if r.random() < 0.5 else 0.0
                    s = 0.0 if d and r.random() < 0.8 else self.pick(0, max(0, min(smax, (room + h * w + h * d / ed) / (h * es)) if es else smax))
                    lev[k] = carry + h * (es * s - d / ed - w)
                else:
                    w = 0.0
                    diff = (lev[k] - carry) / h
                    if diff < 0 and inflow > 0 and r.random() < 0.5:
                        w = min(inflow, -diff)
                        diff += w
                    d, s = (0.0, diff / es if es else 0.0) if diff > 0 else (-diff * ed, 0.0)
                x["ud"][a["id"]][k], x["us"][a["id"]][k], x["soc"][a["id"]][k], x["spill"][a["id"]][k] = d, s, lev[k], w
                prev = lev[k]
                if self.left and r.random() < self.bad:
                    self.left -= 1
                    q = r.choice(["ud", "us", "soc", "spill"])
                    x[q][a["id"]][k] += r.choice([-1, 1, 0.5])

    def store(self, a, x, cap):
        cs, r = self.cs, self.r
        mi = cs["per"][0] != 0
        pp = mi and (a["e_cyclic_per_period"] or a["e_initial_per_period"])
        for span in self.spans(a, pp):
            lo = {k: A(a, "e_min_pu", cs["sel"][k] - 1) * cap for k in span}
            hi = {k: A(a, "e_max_pu", cs["sel"][k] - 1) * cap for k in span}
            lev = {k: self.pick(lo[k], hi[k]) for k in span}
            prev = lev[span[-1]] if a["e_cyclic"] else a["e_initial"]
            for k in span:
                t, h = cs["sel"][k] - 1, cs["ws"][cs["sel"][k] - 1]
                x["sp"][a["id"]][k] = ((1 - A(a, "standing_loss", t)) ** h * prev - lev[k]) / h
                x["se"][a["id"]][k] = lev[k]
                prev = lev[k]
                if self.left and r.random() < self.bad:
                    self.left -= 1
                    x[r.choice(["sp", "se"])][a["id"]][k] += r.choice([-1, 1, 0.5])

    # -- impedances (for constructing flows that satisfy KVL; judged by the specification's own values)
    def weight(self, cls, b):
        vb = next(z for z in self.cs["buses"] if z["id"] == b["bus0"])
        q = "x" if vb["carrier"] == "AC" else "r"
        return b[q] / vb["v_nom"] ** 2 if cls == "Line" else b[q] / b["s_nom"] * b["tap_ratio"]

    def rpu(self, cls, b):
        vb = next(z for z in self.cs["buses"] if z["id"] == b["bus0"])
        return b["r"] / vb["v_nom"] ** 2 if cls == "Line" else b["r"] / b["s_nom"] * b["tap_ratio"]

    def grid(self, x, capof):
        cs, r = self.cs, self.r
        brs = [("Line", b, "lines") for b in cs["lines"]] + [("Transformer", b, "trafos") for b in cs["trafos"]]
        for k in range(self.K):
            t = cs["sel"][k] - 1
            act = [(c, b, key) for c, b, key in brs if on(cs, b, k)]
            if not act:
                continue
            ang = {b["id"]: 0.0 for b in cs["buses"]}
            for z in ang:
                ang[z] = r.randint(-8, 8)
            f = {b["id"]: (ang[b["bus0"]] - ang[b["bus1"]]) / self.weight(c, b) for c, b, key in act}
            # scale into the limits
            lim = {b["id"]: A(b, "s_max_pu", t) * capof(key, b) for c, b, key in act}
            if cs["losses"]:
                lim = {b["id"]: 0.8 * lim[b["id"]] for c, b, key in act}
            worst = max([abs(f[i]) / lim[i] if lim[i] > 0 else (INF if abs(f[i]) > 1e-12 else 0) for i in f] + [0])
            u = r.random()
            if self.left and r.random() < self.bad and math.isfinite(worst) and worst > 0:
                self.left -= 1
                s = (1 + r.choice([0.1, 0.5])) / worst
            elif worst == 0 or not math.isfinite(worst):
                s = 0
            else:
                s = (1 if u < 0.3 else r.randint(1, 8) / 8) / worst
            for c, b, key in act:
                x["flow"][c][b["id"]][k] = f[b["id"]] * s
            if self.left and r.random() < self.bad:
                self.left -= 1
                c, b, key = r.choice(act)
                x["flow"][c][b["id"]][k] += r.choice([-1, 1])
            if cs["losses"]:
                for c, b, key in act:
                    full = A(b, "s_max_pu", t) * (b["s_nom_max"] if b["s_nom_extendable"] else b["s_nom"])
                    rp = self.rpu(c, b)
                    fl = abs(x["flow"][c][b["id"]][k])
                    lo = max([0] + [rp * (2 * q * fl - q * q) for q in [i / cs["losses"] * full for i in range(1, cs["losses"] + 1)]])
                    hi = rp * full ** 2
                    hi = max(lo, min(hi, A(b, "s_max_pu", t) * capof(key, b) - fl))
                    x["loss"][c][b["id"]][k] = self.pick(lo, hi)

    def injection(self, x, b, k):
        cs = self.cs
        t = cs["sel"][k] - 1
        s = sum(g["sign"] * x["gp"][g["id"]][k] for g in cs["gens"] if g["bus"] == b and on(cs, g, k))
        s += sum(g["sign"] * x["sp"][g["id"]][k] for g in cs["stores"] if g["bus"] == b and on(cs, g, k))
        s += sum(g["sign"] * (x["ud"][g["id"]][k] - x["us"][g["id"]][k]) for g in cs["sus"] if g["bus"] == b and on(cs, g, k))
        s += sum(l["sign"] * A(l, "p_set", t) for l in cs["loads"] if l["bus"] == b and l["active"])
        for l in cs["links"]:
            if on(cs, l, k):
                s -= x["lp"][l["id"]][k] * (l["bus0"] == b)
                for p in l["ports"]:
                    s += x["lp"][l["id"]][k] * (p["bus"] == b) * A(l, p["eff"], t)
        for c, key in (("Line", "lines"), ("Transformer", "trafos")):
            for br in cs[key]:
                if on(cs, br, k):
                    s += x["flow"][c][br["id"]][k] * ((br["bus1"] == b) - (br["bus0"] == b))
                    if cs["losses"]:
                        s -= 0.5 * x["loss"][c][br["id"]][k] * ((br["bus1"] == b) + (br["bus0"] == b))
        return s

    def balance(self, x):
        cs = self.cs
        for g in cs["gens"]:
            if g["id"].startswith("slack"):
                for k in range(self.K):
                    x["gp"][g["id"]][k] = 0.0
                    x["gp"][g["id"]][k] = -self.injection(x, g["bus"], k) / g["sign"]
        if self.left and self.r.random() < self.bad:
            sl = [g for g in cs["gens"] if g["id"].startswith("slack")]
            if sl:
                self.left -= 1
                x["gp"][self.r.choice(sl)["id"]][self.r.randrange(self.K)] += self.r.choice([-1, 1])


# ------------------------------------------------------------------ events
def observe(cs, xs, n=None, rm=None, tol=2e-6, **kw):
    """One event: the case, candidate decisions and the real model's verdict on each."""
    rm = rm or RealModel(cs, n, **kw)
    cands = []
    for x in xs:
        adm, why, obj, scale = rm.admits(x, tol)
        cands.append(dict(x=x, adm=adm, why=why or "-", obj=obj, scale=scale, priced=not why.startswith("no variable")))
    return dict(cs=encode(cs), cands=cands, const=float(rm.n.objective_constant)), rm


def qs(v):
    """A quantity as a string (records that share a set must have comparable fields)."""
    z = vlib.q(v)
    return str(z) if not isinstance(z, bool) else z


def _enc(a, keep=()):
    out = {}
    for k, v in a.items():
        if k in keep or isinstance(v, (bool, str)):
            out[k] = v
        elif isinstance(v, dict):
            out[k] = _enc(v, keep)
        elif isinstance(v, list):
            out[k] = [(_enc(z, keep) if isinstance(z, dict) else z if isinstance(z, str) else qs(z)) for z in v]
        else:
            out[k] = qs(v)
    return out


def encode(cs):
    """The case as the specification reads it: quantities are strings, indices and years are integers."""
    out = {k: cs[k] for k in ("T", "per", "sel", "multi", "losses")}
    for w in ("wo", "wg", "ws"):
        out[w] = [qs(v) for v in cs[w]]
    out["py"] = [_enc(p, ("y",)) for p in cs["py"]]
    for key in ("buses", "carriers", "glcs", *CLS):
        out[key] = [_enc(a, ("period",)) for a in cs[key]]
    return out
