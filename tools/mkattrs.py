#!/usr/bin/env python3
"""Writes spec/AttrTable.tla from PyPSA's documented attribute tables (run once; the
committed module is the specification's copy of the documented defaults)."""
import sys
sys.path.insert(0, "/repo"); sys.path.insert(0, "/verif/harness")
import pypsa
from netobs import val
n = pypsa.Network()
out = ["------------------------------ MODULE AttrTable ------------------------------",
       "(* The documented attributes of every component class: default values of the   *)",
       "(* static ones, and those that may vary over time.  Quantities are strings.    *)",
       "(* Written by tools/mkattrs.py.                                                *)",
       "StaticDefaults == ["]
rows, vary, outs = [], [], []
for c in sorted(n.all_components):
    a = n.components[c].attrs if hasattr(n.components[c], "attrs") else n.components[c]["attrs"]
    a = n.components[c]["attrs"]
    st = a[a.static].drop("name", errors="ignore")
    st = st[st.type != "geometry"]
    rows.append("  %s |-> [%s]" % (c, ", ".join('%s |-> "%s"' % (k, val(v)) for k, v in st.default.items())))
    v = a[a.varying]
    vary.append("  %s |-> [%s]" % (c, ", ".join('%s |-> "%s"' % (k, val(d)) for k, d in v.default.items())) if len(v) else "  %s |-> << >>" % c)
    o = a[~a.static]
    outs.append("  %s |-> {%s}" % (c, ", ".join('"%s"' % k for k in o.index)))
out += [",\n".join(rows) + "]", "(* default of a time-varying attribute *)", "VaryingDefaults == [", ",\n".join(vary) + "]",
        "(* attributes that exist as series only *)", "SeriesOnly == [", ",\n".join(outs) + "]",
        "=" * 77]
open("/verif/spec/AttrTable.tla", "w").write("\n".join(out) + "\n")
