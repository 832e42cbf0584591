"""Dependent values of branches and shunts of random networks."""
import random
import numpy as np
import pandas as pd
import netobs
import pfcases as pc
from vlib import q
num = pc.num


def scene(job):
    seed, i = job
    r = random.Random("%s/%s" % (seed, i))
    n = pc.network(r, steps=1, types=0.5, dead=0.1)
    for cls in ("Line", "Transformer"):      # more types, further parameters
        for nm in n.static(cls).index:
            st = n.static(cls)
            tt = n.line_types if cls == "Line" else n.transformer_types
            if r.random() < 0.3:
                st.loc[nm, "type"] = r.choice(list(tt.index))
            if r.random() < 0.15 and cls == "Line":
                n.add("LineType", "own", f_nom=r.choice([50.0, 60.0, 16.7]), r_per_length=0.1, x_per_length=0.3, c_per_length=12, i_nom=1, overwrite=True)
                st.loc[nm, "type"] = "own"
            if r.random() < 0.15 and cls == "Transformer":
                n.add("TransformerType", "own", f_nom=50.0, s_nom=r.choice([10.0, 63.0]), v_nom_0=110, v_nom_1=20, vsc=12.0, vscr=r.choice([0.3, 2.0]), pfe=r.choice([10, 200.0]), i0=r.choice([0.05, 0.6]),
                      phase_shift=r.choice([0, 150]), tap_side=r.choice([0, 1]), tap_neutral=r.choice([0, 2]), tap_min=-9, tap_max=9, tap_step=1.5, overwrite=True)
                st.loc[nm, "type"] = "own"
            st.loc[nm, "num_parallel"] = r.choice([1, 2, 0.5, 3])
            st.loc[nm, "g"] = r.choice([0, 1e-6, 0.01])
            st.loc[nm, "b"] = r.choice([0, 1e-6, -0.02])
            if r.random() < 0.01:
                st.loc[nm, "type"] = "no such type"
            if cls == "Line" and r.random() < 0.3:
                st.loc[nm, "carrier"] = r.choice(["AC", "DC", ""])
    evs = []
    for k in range(r.randint(1, 2)):
        ev = dict(out="ok", branches=pc.branches(n), shunts=[])
        ev["ltypes"], ev["ttypes"] = pc.types(n)
        for b in ev["branches"]:
            if b["cls"] == "Line":
                b["carrier"] = str(n.lines.carrier[b["name"]]) or str(n.buses.carrier[b["bus0"]])
        skip = {"Line": {"r", "x", "b", "g", "v_nom", "carrier"}, "Transformer": {"r", "x", "g", "b", "s_nom", "tap_ratio", "tap_side", "phase_shift"}, "ShuntImpedance": {"v_nom"},
                "Link": {"carrier"}, "Store": {"carrier"}}
        def image():
            out = {}
            for c in n.all_components - {"SubNetwork", "LineType", "TransformerType"}:
                for a in n.static(c).columns:
                    if a in skip.get(c, ()) or a.endswith("_pu") or a.endswith("_eff"):
                        continue
                    for nm, v in n.static(c)[a].items():
                        out["%s %s %s" % (c, nm, a)] = netobs.val(v)
            return out
        was = image()
        try:
            n.calculate_dependent_values()
        except Exception as x:
            ev["out"], ev["error"] = "refused", "%s: %s" % (type(x).__name__, str(x)[:200])
            evs.append(ev)
            break
        now = image()
        ev["changed"] = sorted(a for a in set(was) | set(now) if was.get(a) != now.get(a))
        for b in ev["branches"]:
            row = n.static(b["cls"]).loc[b["name"]]
            b["got"] = {a: num(row[a]) for a in ("r", "x", "g", "b", "r_pu", "x_pu", "g_pu", "b_pu", "r_pu_eff", "x_pu_eff")}
            if b["cls"] == "Transformer":
                b["got"].update(s_nom=num(row.s_nom), tap_ratio=num(row.tap_ratio), tap_side=int(row.tap_side), phase_shift=num(row.phase_shift))
            else:
                b["got"].update(v_nom=num(row.v_nom), carrier=str(row.carrier))
        for nm, row in n.shunt_impedances.iterrows():
            ev["shunts"].append(dict(g=num(row.g), b=num(row.b), v_nom=num(n.buses.v_nom[row.bus]), got=dict(g_pu=num(row.g_pu), b_pu=num(row.b_pu))))
        evs.append(ev)
        for nm in n.transformers.index:      # edits, then once more
            if r.random() < 0.5:
                n.transformers.loc[nm, "tap_position"] = r.choice([-2, 0, 1, 5])
            if r.random() < 0.2:
                n.transformers.loc[nm, "model"] = r.choice(["t", "pi"])
            if r.random() < 0.2:
                n.transformers.loc[nm, "type"] = ""
        for nm in n.lines.index:
            if r.random() < 0.3:
                n.lines.loc[nm, "length"] = r.choice([0.5, 4, 120])
        for nm in n.buses.index:
            if r.random() < 0.2:
                n.buses.loc[nm, "v_nom"] = r.choice([20, 110, 380.0])
    return evs


def run(ctx):
    k = 0
    while k == 0 or (not ctx.quick and ctx.left() > 120 and not ctx.violations):
        evs = [e for es in ctx.run(scene, [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i) for i in range(ctx.n(350, 3000))], label="dependent values") for e in es or []]
        ctx.judge("Electrical", evs, op="TypesFails", cases=[{x: e[x] for x in ("error", "changed") if x in e} for e in evs], label="dependent values")
        ctx.cov["branches"] = ctx.cov.get("branches", 0) + sum(len(e["branches"]) for e in evs)
        ctx.cov["branches with a type"] = ctx.cov.get("branches with a type", 0) + sum(b["type"] != "" for e in evs for b in e["branches"])
        k += 1
    ctx.samples.append({x: evs[0][x] for x in ("branches", "shunts")})
