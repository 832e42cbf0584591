"""Export and import of random networks in every format, on targets with a history."""
import json
import os
import random
import shutil
import tempfile
import numpy as np
import pandas as pd
import netobs
import vlib
from netobs import absnet, label
from check_c03 import network, solved
from histories import Editor

FORMATS = ["csv", "netcdf", "hdf5", "excel"]
ODD = ["1", "01", "1.0", "NA", "True", "None", "null", "1e5", "2020", "ä", "x/y"]


def odd(r, n, fmt):
    """Names, strings and columns which are easily mistaken for something else."""
    for _ in range(r.randint(0, 3)):
        cls = r.choice(["Bus", "Generator", "Load", "Carrier"])
        if not len(n.static(cls)):
            continue
        k = r.random()
        if k < 0.5:
            new = r.choice(ODD[:-1] if fmt in ("netcdf", "hdf5") else ["ä", "x,y", "a b c", "12"])
            if new not in n.static(cls).index:
                n.rename_component_names(cls, **{r.choice(list(n.static(cls).index)): new})
        elif k < 0.7 and cls != "Carrier":
            n.static(cls)["remark"] = [r.choice((ODD if fmt in ("netcdf", "hdf5") else ["ä", "x/y", "q,r"]) + ["", "plain"]) for _ in n.static(cls).index]
        elif k < 0.8:
            n.static(cls)["rank"] = list(range(3, 3 + len(n.static(cls))))
        elif k < 0.9:
            n.static(cls)["flag"] = [r.random() < 0.5 for _ in n.static(cls).index]
        else:
            n.static(cls)["level"] = [r.choice([0.1, float("inf"), float("-inf"), 1e-9]) for _ in n.static(cls).index]
    if r.random() < 0.15:
        n.name = r.choice(["1", "NA", "true", "x y", "None"] if fmt != "excel" else ["x y", "n"])
    if r.random() < 0.2:
        n.meta = r.choice([{"a": None, "b": [1, "x", {"c": True}], "d": 1.5}, {"k": "1"}, {"nested": {"x": "NA", "y": []}}, {"n": 1, "t": "true"}])


def make(r, solve, fmt):
    if solve:
        n = solved(r)
    else:
        n = network(r, steps=(2, 12)).n
    if not len(n.buses):
        n.add("Bus", "a")
    odd(r, n, fmt)
    if r.random() < 0.05:                # a standard type is missing
        n.remove("LineType", n.line_types.index[r.randrange(3)])
    return n


def export(n, fmt, path, r=None, ev=None):
    kw = {}
    if r is not None and fmt == "netcdf" and r.random() < 0.3:
        kw["compression"] = {"zlib": True, "complevel": 4}
    {"csv": n.export_to_csv_folder, "netcdf": n.export_to_netcdf, "hdf5": n.export_to_hdf5, "excel": n.export_to_excel}[fmt](path, **kw)


def load(fmt, path, how):
    import pypsa
    if how == "constructor":
        return pypsa.Network(path)
    n = pypsa.Network()
    {"csv": n.import_from_csv_folder, "netcdf": n.import_from_netcdf, "hdf5": n.import_from_hdf5, "excel": n.import_from_excel}[fmt](path)
    return n


def scene(job):
    seed, i, fmt, solve = job
    r = random.Random("%s/%s/%s" % (seed, i, fmt))
    n = make(r, solve, fmt)
    netobs.DIGITS = 13 if fmt in ("csv", "excel") else 0       # text
    d = tempfile.mkdtemp(prefix="verif-io-")
    try:
        path = os.path.join(d, "net" + {"csv": "", "netcdf": ".nc", "hdf5": ".h5", "excel": ".xlsx"}[fmt])
        before = 0
        with vlib.muted():
            while r.random() < 0.4 and before < 2:          # what is already at the target
                old = n.copy() if r.random() < 0.4 and getattr(n, "_model", None) is None else make(r, False, fmt)
                e = Editor(r, old)
                for _ in range(3):
                    e.step(["add", "add", "set", "remove"])
                try:
                    export(old, fmt, path, r)
                    before += 1
                except Exception:
                    shutil.rmtree(path, ignore_errors=True) if os.path.isdir(path) else (os.path.exists(path) and os.remove(path))
                    before = 0
        ev = dict(format=fmt, before=before, start=absnet(n))
        how = r.choice(["constructor", "method"])
        ev["how"] = how
        try:
            with vlib.muted():
                export(n, fmt, path, r, ev)
                ev["startAfter"] = absnet(n)
                m = load(fmt, path, how)
            ev["result"], ev["out"] = absnet(m), "ok"
            if [type(s).__name__ for s in m.snapshots] != [type(s).__name__ for s in n.snapshots] and len(n.snapshots):
                ev["result"]["bad"].append("snapshots of another type")
            ev["types"] = types(n, m)
        except Exception as x:
            import traceback
            ev["out"], ev["error"] = "refused", "%s: %s" % (type(x).__name__, str(x)[:300]) + traceback.format_exc()[-600:]
            ev["startAfter"] = absnet(n)
        return ev
    finally:
        netobs.DIGITS = 0
        shutil.rmtree(d, ignore_errors=True)


def types(n, m):
    """Attributes of the components' documentation whose column has another kind of type after the import."""
    out = []
    for c in n.all_components:
        if c in ("LineType", "TransformerType", "SubNetwork", "Shape"):
            continue
        a, b = n.static(c), m.static(c)
        for k in a.columns.intersection(b.columns):
            if len(a) and a[k].dtype.kind != b[k].dtype.kind and k in n.components[c].defaults.index:
                out.append("%s.%s" % (c, k))
    return sorted(out)


def run(ctx):
    k = 0
    while k == 0 or (not ctx.quick and ctx.left() > 150 and not ctx.violations):
        jobs = []
        for fmt, q, t in (("csv", 110, 400), ("netcdf", 110, 400), ("hdf5", 60, 250), ("excel", 50, 200)):
            jobs += [("%s/%d/%d" % (ctx.prop, ctx.seed, k), i, fmt, i % 9 == 8) for i in range(ctx.n(q, t))]
        ctx.rng().shuffle(jobs)
        evs = [e for e in ctx.run(scene, jobs, label="files") if e is not None]
        ctx.judge("Files", evs, op="RoundTrip", cases=[{q: e[q] for q in ("format", "before", "how", "error", "types") if q in e} for e in evs], label="files")
        for e in evs:
            d = ctx.cov.setdefault("round trips", {})
            key = "%s, %s earlier exports" % (e["format"], e["before"])
            d[key] = d.get(key, 0) + 1
        k += 1
    ctx.samples.append({q: evs[0][q] for q in ("format", "before", "how", "out")})
