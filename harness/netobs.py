"""Abstraction of a pypsa.Network to the state of spec/Container.tla."""
import json
import math
import numpy as np
import pandas as pd

CLASSES = ["Bus", "Carrier", "Generator", "Load", "Line", "Transformer", "Link", "Store", "StorageUnit", "ShuntImpedance", "GlobalConstraint",
           "LineType", "TransformerType", "SubNetwork", "Shape"]


DIGITS = 0          # significant digits observed; 0: all


def num(f):
    """Shortest exact decimal of a float, integral values without a point."""
    if DIGITS and math.isfinite(f):
        f = float("%.*g" % (DIGITS, f))
    if f == 0:
        return "0"
    if math.isfinite(f) and f == int(f) and abs(f) < 1e15:
        return str(int(f))
    return repr(f)


def val(v):
    """Canonical string of one datum."""
    if v is None or v is pd.NaT:
        return "nan"
    if isinstance(v, (bool, np.bool_)):
        return "True" if v else "False"
    if isinstance(v, str):
        return "'" + v.replace("\\", "/").replace('"', "`")
    if isinstance(v, (int, np.integer)):
        return str(int(v))
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if math.isnan(f):
            return "nan"
        return num(f)
    if isinstance(v, complex):
        return "%.12g+%.12gj" % (v.real, v.imag)
    return "?" + str(v)


def label(s):
    """A snapshot label."""
    if isinstance(s, tuple):
        return "|".join(label(z) for z in s)
    if isinstance(s, (pd.Timestamp, np.datetime64)):
        return str(pd.Timestamp(s))
    return str(s)


STANDARD = {}


def standard(n, c):
    """Values of the standard types."""
    if c not in STANDARD:
        df = n.components[c]["standard_types"]
        STANDARD[c] = {i: {k: val(v) for k, v in zip(df.columns, row)} for i, row in zip(df.index, df.itertuples(index=False, name=None))}
    return STANDARD[c]


def absnet(n, classes=None, skip_attrs=()):
    """snaps, weights, periods, period weights, components; `bad` lists incoherent tables."""
    snaps = [label(s) for s in n.snapshots]
    bad = []
    if len(set(snaps)) != len(snaps):
        bad.append("snapshots are not unique")
    sw = n.snapshot_weightings
    if list(map(label, sw.index)) != snaps:
        bad.append("snapshot weightings are not indexed by the snapshots")
    iw = n.investment_period_weightings
    comps = {}
    for c in classes or CLASSES:
        if c not in n.all_components:
            continue
        st = n.static(c)
        dy = n.dynamic(c)
        if c in ("LineType", "TransformerType"):           # the standard types are the same in all networks
            std = standard(n, c)
            same = [any(k in std.get(i, {}) for k in st.columns) and all(std[i].get(k, "nan") in ("nan", val(v)) for k, v in zip(st.columns, row))
                    for i, row in zip(st.index, st.itertuples(index=False, name=None))]
            st = st[~np.array(same, dtype=bool)]
        if not st.index.is_unique:
            bad.append(c + " names are not unique")
            st = st[~st.index.duplicated()]
        rows = {}
        cols = [k for k in st.columns if k not in ("obj", "geometry") and k not in skip_attrs]
        for name, row in zip(st.index, st[cols].itertuples(index=False, name=None)):
            rows[str(name)] = {str(k): val(v) for k, v in zip(cols, row)}
        series = {}
        for attr, df in dy.items():
            if attr in skip_attrs:
                continue
            if list(map(label, df.index)) != snaps:
                bad.append("%s series %s is not indexed by the snapshots" % (c, attr))
                continue
            if not df.columns.is_unique:
                bad.append("%s series %s has repeated columns" % (c, attr))
                continue
            if len(df.columns):
                series[str(attr)] = {str(k): [val(v) for v in df[k].values] for k in df.columns}
        comps[c] = dict(names=[str(i) for i in (st if c in ("LineType", "TransformerType") else n.static(c)).index], cols=sorted(map(str, cols)), static=rows, series=series)
    return dict(name=str(n.name), snaps=snaps, w={k: [val(v) for v in sw[k]] for k in sw.columns} if len(sw) == len(snaps) else {},
                periods=[label(p) for p in n.investment_periods], ipw=[label(p) for p in iw.index],
                pw={k: [val(v) for v in iw[k]] for k in iw.columns} if len(iw) else {}, comps=comps, bad=bad, meta=json.dumps(n.meta, sort_keys=True, default=str).replace('"', "'").replace("\\", "/"),
                crs=crs_of(n))


def crs_of(n):
    c = n.crs
    return "none" if c is None else str(c.to_epsg() or c.to_wkt()[:60]).replace('"', "'")


def layout(n):
    """Orders of rows and columns of all tables (two networks with the same data may differ in them)."""
    import hashlib
    h = hashlib.sha1()
    for c in sorted(n.all_components):
        st = n.static(c)
        h.update(repr((c, list(map(str, st.index)), list(map(str, st.columns)))).encode())
        for k in sorted(map(str, n.dynamic(c))):
            df = n.dynamic(c)[k]
            h.update(repr((k, list(map(str, df.columns)))).encode())
    h.update(repr((list(n.snapshot_weightings.columns), list(n.investment_period_weightings.columns), [type(i).__name__ for i in n.snapshots])).encode())
    return h.hexdigest()[:12]
