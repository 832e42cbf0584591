"""Random edit histories of a real network, recorded as steps for spec/Container.tla."""
import numpy as np
import pandas as pd
from netobs import absnet, val, label

NAN = float("nan")
# attributes: (name, kind, may vary)
POOL = {
    "Bus": [("v_nom", "f", 0), ("x", "f", 0), ("carrier", "car", 0), ("v_mag_pu_set", "f", 1), ("unit", "s", 0)],
    "Carrier": [("co2_emissions", "f", 0), ("color", "s", 0), ("max_growth", "f", 0)],
    "Generator": [("bus", "bus", 0), ("p_nom", "f", 0), ("p_nom_extendable", "b", 0), ("carrier", "car", 0), ("build_year", "i", 0), ("p_max_pu", "f", 1),
                  ("marginal_cost", "f", 1), ("lifetime", "f", 0), ("control", "ctl", 0), ("custom", "f", 0), ("note", "s", 0), ("ramp_limit_up", "f", 1),
                  ("min_up_time", "i", 0), ("availability", "f", 2)],
    "Load": [("bus", "bus", 0), ("p_set", "f", 1), ("q_set", "f", 1), ("carrier", "car", 0), ("sign", "f", 0), ("active", "b", 0)],
    "Line": [("bus0", "bus", 0), ("bus1", "bus", 0), ("x", "f", 0), ("s_nom", "f", 0), ("s_max_pu", "f", 1), ("carrier", "car", 0), ("num_parallel", "f", 0)],
    "Transformer": [("bus0", "bus", 0), ("bus1", "bus", 0), ("x", "f", 0), ("s_nom", "f", 0), ("s_max_pu", "f", 1), ("tap_position", "i", 0)],
    "Link": [("bus0", "bus", 0), ("bus1", "bus", 0), ("bus2", "bus", 0), ("bus3", "bus", 0), ("efficiency", "f", 1), ("efficiency2", "f", 1), ("p_nom", "f", 0),
             ("p_max_pu", "f", 1), ("carrier", "car", 0)],
    "Store": [("bus", "bus", 0), ("e_nom", "f", 0), ("e_cyclic", "b", 0), ("standing_loss", "f", 1), ("carrier", "car", 0), ("tag", "b", 0)],
    "StorageUnit": [("bus", "bus", 0), ("p_nom", "f", 0), ("inflow", "f", 1), ("max_hours", "f", 0), ("cyclic_state_of_charge", "b", 0), ("custom", "f", 0)],
    "ShuntImpedance": [("bus", "bus", 0), ("g", "f", 0), ("b", "f", 0)],
}
CUSTOM = {"custom", "note", "tag", "availability"}


class Editor:
    def __init__(self, r, start=None, classes=None):
        import pypsa
        self.r, self.n = r, start if start is not None else pypsa.Network()
        self.classes = classes or list(POOL)
        self.steps = []
        self.start = absnet(self.n)
        self.fresh = 0

    # ---- values
    def value(self, kind):
        r = self.r
        if kind == "f":
            return r.choice([0.0, 1.0, 2.5, -1.0, 3, 7, 0.25, 1e6, float("inf"), NAN, 0.1 + 0.2])
        if kind == "i":
            return r.choice([0, 1, 2, 2030, 5])
        if kind == "b":
            return r.choice([True, False])
        if kind == "s":
            return r.choice(["", "red", "a b", "x,y"])
        if kind == "car":
            return r.choice(["", "AC", "gas", "wind"] + list(map(str, self.n.carriers.index)))
        if kind == "ctl":
            return r.choice(["PQ", "PV", "Slack"])
        if kind == "bus":
            return r.choice(list(map(str, self.n.buses.index)) + ["ghost"]) if len(self.n.buses) and r.random() < 0.95 else "ghost"
        raise KeyError(kind)

    def names(self, cls, k, new=None):
        r = self.r
        old = list(self.n.static(cls).index)
        out = []
        for _ in range(k):
            if old and (new is False or (new is None and r.random() < 0.3)):
                out.append(r.choice(old))
            else:
                pool = ["a", "b", "c", "d", "e", "1", "2", "10", "a b"]
                out.append(r.choice(pool))
        return out

    # ---- performing
    def do(self, op, call):
        ret = None
        try:
            ret = call()
            out = "ok"
        except Exception as e:
            out = "refused"
            op["error"] = "%s: %s" % (type(e).__name__, str(e)[:120])
        st = dict(op=op, out=out, post=absnet(self.n))
        if op["kind"] == "add" and out == "ok":
            st["ret"] = [str(i) for i in ret] if ret is not None else []
        self.steps.append(st)
        return out == "ok"

    def step(self, kinds):
        return getattr(self, "op_" + self.r.choice(kinds))()

    # ---- operations
    def op_add(self):
        r, n = self.r, self.n
        cls = r.choice(self.classes if len(n.buses) else ["Bus", "Bus", "Carrier"])
        single = r.random() < 0.45
        if single:
            names = self.names(cls, 1)
        else:
            names = self.names(cls, r.randint(0 if r.random() < 0.1 else 1, 3))
            if r.random() < 0.93:
                names = list(dict.fromkeys(names))
        suffix = r.choice(["", "", "", " wind"])
        final = [x + suffix for x in names]
        if r.random() < 0.02:
            cls_used = "Nonsense"
        else:
            cls_used = cls
        overwrite = r.random() < 0.35
        T, N = len(n.snapshots), len(names)
        kw, args = {}, []
        attrs = [a for a in POOL[cls] if r.random() < 0.5]
        have = {a for a, _, _ in attrs}
        if cls == "Link":
            if "efficiency2" in have and "bus2" not in have and "bus2" not in n.links:
                attrs = [a for a in attrs if a[0] != "efficiency2"]
        for a, kind, vary in attrs:
            form = r.choice(["scalar", "scalar", "seq", "labelled"] + (["frame", "array", "seq"] if vary else []) + (["dict"] if r.random() < 0.03 else []))
            if vary == 2 and not (form in ("frame", "array") or (single and form in ("seq", "labelled"))):
                form = "seq" if single else "frame"
            if single and form in ("frame", "array"):
                form = "seq"
            if single and form in ("seq", "labelled") and not vary:
                form = "scalar"
            if not single and N == 0:
                form = "scalar"
            if N != 1 and not single and form == "seq" and r.random() < 0.1:
                L = 1
            else:
                L = T if single else N
            off = 1 if r.random() < (0.15 if form == "frame" or form == "labelled" and not single else 0.03) else 0
            if form == "scalar":
                v = self.value(kind)
                kw[a] = v
                args.append(dict(k=a, form=form, v=val(v), idx=[], cols=[]))
            elif form == "dict":
                kw[a] = {x: 1.0 for x in names}
                args.append(dict(k=a, form=form, v="0", idx=[], cols=[]))
            elif form == "seq":
                v = [self.value(kind) for _ in range(L + off)]
                kw[a] = v if kind in ("bus", "car", "s", "ctl", "b") or r.random() < 0.5 else np.array(v)
                args.append(dict(k=a, form=form, v=[val(z) for z in v], idx=[], cols=[]))
            elif form == "labelled":
                v = [self.value(kind) for _ in range(L)]
                idx = list(n.snapshots) if single else list(names)
                if off and len(idx) > 1:
                    idx = idx[::-1]
                if single:
                    s = pd.Series(v, index=n.snapshots if not off else (n.snapshots[::-1]))
                    lab = [label(z) for z in s.index]
                else:
                    use = [x + suffix for x in idx] if r.random() < 0.5 else idx
                    s = pd.Series(v, index=use, dtype=object if kind in ("bus", "car", "s", "ctl", "b") else None)
                    lab = [x if x.endswith(suffix) else x + suffix for x in map(str, use)]
                kw[a] = s
                args.append(dict(k=a, form=form, v=[val(z) for z in v], idx=lab, cols=[]))
            elif form == "array":
                m = np.array([[float(self.value("f")) for _ in range(N)] for _ in range(T + off)]).reshape(T + off, N)
                kw[a] = m
                args.append(dict(k=a, form=form, v=[[val(z) for z in row] for row in m], idx=[], cols=[]))
            elif form == "frame":
                m = np.array([[float(self.value("f")) for _ in range(N)] for _ in range(T)]).reshape(T, N)
                cols = list(names)
                if off and N > 1:
                    cols = cols[::-1] if r.random() < 0.7 else cols[1:] + ["other"]
                df = pd.DataFrame(m, index=n.snapshots, columns=cols)
                kw[a] = df
                args.append(dict(k=a, form=form, v=[[val(z) for z in row] for row in m], idx=[label(z) for z in n.snapshots],
                                 cols=[x if x.endswith(suffix) else x + suffix for x in cols]))
        given = names[0] if single else (names if r.random() < 0.7 else pd.Index(names, dtype=object))
        op = dict(kind="add", cls=cls_used, names=final, single=single, overwrite=overwrite, args=args)
        return self.do(op, lambda: n.add(cls_used, given, suffix=suffix, overwrite=overwrite, **kw))

    def op_remove(self):
        r, n = self.r, self.n
        cs = [c for c in self.classes if len(n.static(c))]
        if not cs:
            return self.op_add()
        cls = r.choice(cs)
        single = r.random() < 0.5
        names = self.names(cls, 1 if single else r.randint(1, 2), new=None if r.random() < 0.2 else False)
        names = list(dict.fromkeys(names))
        op = dict(kind="remove", cls=cls, names=names)
        return self.do(op, lambda: n.remove(cls, names[0] if single else names))

    def op_rename(self):
        r, n = self.r, self.n
        cs = [c for c in ("Bus", "Bus", "Carrier", "Generator", "Line", "Load", "Store", "Link") if c in self.classes and len(n.static(c))]
        if not cs:
            return self.op_add()
        cls = r.choice(cs)
        old = list(map(str, n.static(cls).index))
        ks = r.sample(old, min(len(old), r.choice([1, 1, 2])))
        self.fresh += 1
        if len(ks) == 2 and r.random() < 0.4:
            mp = {ks[0]: ks[1], ks[1]: ks[0]}
        else:
            mp = {k: (r.choice(old) if r.random() < 0.15 else "%s%d%d" % (r.choice(["n", "z"]), self.fresh, i)) for i, k in enumerate(ks)}
        if r.random() < 0.15:
            mp["nobody"] = "somebody%d" % self.fresh
        op = dict(kind="rename", cls=cls, map=dict(mp))
        return self.do(op, lambda: n.rename_component_names(cls, **mp))

    def flat(self):
        r, cur = self.r, list(self.n.snapshots)
        kind = r.choice(["int", "date", "str", "keep", "keep", "grow"])
        if isinstance(self.n.snapshots, pd.MultiIndex) or kind == "int":
            return pd.Index(r.sample(range(6), r.randint(1, 4)))
        if kind == "date":
            return pd.DatetimeIndex(sorted(r.sample(list(pd.date_range("2030-01-01", periods=6, freq="h")), r.randint(1, 4))))
        if kind == "str":
            return pd.Index(r.sample(["now", "t1", "t2", "t3"], r.randint(1, 3)))
        sub = r.sample(cur, r.randint(1, len(cur)))
        if kind == "grow" and all(isinstance(z, (int, np.integer)) for z in cur):
            sub = sub + [z for z in r.sample(range(6, 9), r.randint(1, 2)) if z not in sub]
        return pd.Index(sub)

    def op_snapshots(self):
        r, n = self.r, self.n
        q = r.random()
        default = r.choice([1.0, 1.0, 2.0, 0.5])
        tz = False
        if q < 0.04:
            new = pd.Index([])
        elif q < 0.07:
            new, tz = pd.date_range("2030-01-01", periods=2, freq="h", tz="UTC"), True
        elif q < 0.4 or (isinstance(n.snapshots, pd.MultiIndex) and q < 0.8):
            years = sorted(r.sample([2020, 2030, 2040], r.randint(1, 2)))
            if isinstance(n.snapshots, pd.MultiIndex):
                base = list(n.timesteps)
                if r.random() < 0.4 and all(isinstance(z, (int, np.integer)) for z in base):
                    base = base + [max(base) + 1]
            else:
                base = list(n.snapshots)
            steps = r.sample(base, r.randint(1, max(1, len(base))))
            new = pd.MultiIndex.from_product([years, steps])
        else:
            new = self.flat()
        multi = isinstance(new, pd.MultiIndex)
        op = dict(kind="snapshots", snaps=[label(z) for z in new], multi=multi, steps=[label(z[1]) if multi else "" for z in new],
                  periods=[label(p) for p in (new.get_level_values(0).unique() if multi else [])], default=val(default), timezone=tz,
                  loosew=bool(multi and not isinstance(n.snapshots, pd.MultiIndex)))
        delta = len(new) > 0 and r.random() < (0.5 if isinstance(new, pd.DatetimeIndex) else 0.1)
        if isinstance(new, pd.DatetimeIndex) and not new.is_monotonic_increasing:
            delta = False
        if delta and isinstance(new, pd.DatetimeIndex):           # hours to the next snapshot
            op["gaps"] = [val((b - a).total_seconds() / 3600) for a, b in zip(new, new[1:])]
        return self.do(op, lambda: n.set_snapshots(new, default_snapshot_weightings=default, **({"weightings_from_timedelta": True} if delta else {})))

    def op_periods(self):
        r, n = self.r, self.n
        if isinstance(n.snapshots, pd.MultiIndex) and r.random() < 0.7:
            ps = list(n.periods) if r.random() < 0.7 else list(n.periods)[:-1] + [2077]
            if r.random() < 0.2:
                ps = ps[1:]
        else:
            ps = r.choice([[2020, 2030], [2025], [2030, 2040, 2050], [2030, 2020], [2020, 2020], [], [2020.5, 2030.5], ["2020", "2030"]])
        ps = [int(p) if isinstance(p, np.integer) else p for p in ps]
        valid = all(isinstance(p, int) for p in ps) and all(a < b for a, b in zip(ps, ps[1:]))
        op = dict(kind="periods", ps=[label(p) for p in ps], valid=bool(valid))
        if r.random() < 0.3:
            return self.do(op, lambda: setattr(n, "investment_periods", ps))
        return self.do(op, lambda: n.set_investment_periods(ps))

    def op_weights(self):
        r, n = self.r, self.n
        idx = n.snapshots if r.random() < 0.85 else n.snapshots[::-1]
        if len(idx) == 1:
            idx = n.snapshots
        v = [r.choice([1.0, 2.0, 0.5, 3.0, 8760.0]) for _ in idx]
        column = r.choice(["all", "objective", "stores", "generators"])
        op = dict(kind="weights", idx=[label(z) for z in idx], v=[val(z) for z in v], column=column)
        if column == "all":
            return self.do(op, lambda: setattr(n, "snapshot_weightings", pd.Series(v, index=idx)))

        def put():
            df = n.snapshot_weightings.reindex(idx)
            df[column] = v
            n.snapshot_weightings = df
        return self.do(op, put)

    def op_pweights(self):
        r, n = self.r, self.n
        if not len(n.periods) or [label(i) for i in n.investment_period_weightings.index] != [label(i) for i in n.periods]:
            return self.op_periods()
        idx = n.periods if r.random() < 0.85 else n.periods[::-1]
        v = [r.choice([1.0, 10.0, 0.5, 5.0]) for _ in idx]
        column = r.choice(["all", "objective", "years"])
        op = dict(kind="period weights", idx=[label(z) for z in idx], v=[val(z) for z in v], column=column)
        if column == "all":
            return self.do(op, lambda: setattr(n, "investment_period_weightings", pd.Series(v, index=idx)))

        def put():
            df = n.investment_period_weightings.reindex(idx)
            df[column] = v
            n.investment_period_weightings = df
        return self.do(op, put)

    def op_set(self):
        """A direct edit of the tables by the user."""
        r, n = self.r, self.n
        cs = [c for c in self.classes if len(n.static(c))]
        if not cs:
            return self.op_add()
        cls = r.choice(cs)
        name = r.choice(list(n.static(cls).index))
        a, kind, vary = r.choice([p for p in POOL[cls] if p[0] in n.static(cls) and p[0] not in CUSTOM] or [("", "", 0)])
        if not a:
            return self.op_add()
        if vary and r.random() < 0.5:
            v = [float(self.value("f")) for _ in n.snapshots]

            def put():
                n.dynamic(cls)[a][name] = v
            return self.do(dict(kind="set series", cls=cls, name=str(name), k=a, v=[val(z) for z in v]), put)
        v = self.value(kind)

        def put():
            n.static(cls).loc[name, a] = v
        return self.do(dict(kind="set", cls=cls, name=str(name), k=a, v=val(v)), put)

    def event(self, **kw):
        return dict(start=self.start, steps=self.steps, **kw)


# ------------------------------------------------------------------ behaviours of spec/ContainerDesign.tla
def datum(s):
    if s.startswith("'"):
        return s[1:]
    return {"True": True, "False": False}.get(s, s if s in ("True", "False") else float(s))


def argument(a, op, n, r):
    if a["form"] == "scalar":
        return datum(a["v"])
    if a["form"] == "seq":
        v = [datum(z) for z in a["v"]]
        return np.array(v) if r.random() < 0.5 else v
    here = {label(s): s for s in n.snapshots}
    idx = n.snapshots if a["idx"] == list(here) else pd.Index(a["idx"])
    if a["form"] == "labelled":
        return pd.Series([datum(z) for z in a["v"]], index=idx)
    return pd.DataFrame([[datum(z) for z in row] for row in a["v"]], index=idx, columns=a["cols"], dtype=float)


def snapshot(s):
    """A label of the specification as a snapshot."""
    if "|" in s:
        return tuple(snapshot(z) for z in s.split("|"))
    return int(s) if s.isdigit() else s


def perform(e, op, r):
    """Carry out one operation of the specification on the network of an Editor."""
    n, op = e.n, dict(op)
    if op["kind"] == "add":
        kw = {a["k"]: argument(a, op, n, r) for a in op["args"]}
        names = op["names"]
        return e.do(op, lambda: n.add(op["cls"], names[0] if op["single"] else names, overwrite=op["overwrite"], **kw))
    if op["kind"] == "remove":
        return e.do(op, lambda: n.remove(op["cls"], op["names"][0] if len(op["names"]) == 1 and r.random() < 0.5 else op["names"]))
    if op["kind"] == "rename":
        return e.do(op, lambda: n.rename_component_names(op["cls"], **op["map"]))
    if op["kind"] == "snapshots":
        new = [snapshot(s) for s in op["snaps"]]
        new = pd.MultiIndex.from_tuples(new) if op["multi"] else pd.Index(new)
        return e.do(op, lambda: n.set_snapshots(new, default_snapshot_weightings=float(op["default"])))
    if op["kind"] == "periods":
        ps = [int(p) for p in op["ps"]]
        return e.do(op, lambda: n.set_investment_periods(ps))
    if op["kind"] == "weights":
        here = {label(s): s for s in n.snapshots}
        idx = n.snapshots if op["idx"] == list(here) else n.snapshots[::-1]
        op["idx"] = [label(z) for z in idx]
        v = [float(z) for z in op["v"]]

        def put():
            if op["column"] == "all":
                n.snapshot_weightings = pd.Series(v, index=idx)
            else:
                df = n.snapshot_weightings.reindex(idx)
                df[op["column"]] = v
                n.snapshot_weightings = df
        return e.do(op, put)
    if op["kind"] == "set":
        def put():
            n.static(op["cls"]).loc[op["name"], op["k"]] = datum(op["v"])
        return e.do(op, put)

    def put():
        n.dynamic(op["cls"])[op["k"]][op["name"]] = [datum(z) for z in op["v"]]
    return e.do(op, put)
